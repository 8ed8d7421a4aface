"""setup_cmd: nothing needs building; make sure that the tools are there."""
import os
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import autograd
import hypothesis
import numpy
import scipy
import sksparse.cholmod
print('python', sys.version.split()[0], 'hypothesis', hypothesis.__version__,
      'numpy', numpy.__version__, 'scipy', scipy.__version__)
