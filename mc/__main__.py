import sys
from mc import harness
sys.exit(harness.main())
