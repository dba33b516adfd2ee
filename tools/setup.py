"""Nothing needs building: scarletio is pure Python and is imported from /repo's working tree by every check."""
import os, subprocess, sys
python = '/opt/venv/bin/python'
sys.exit(subprocess.call([python, '-c', 'import sys; print(sys.version)']))
