from props_mpc import *
from props_lib import *
from props_sys import *
