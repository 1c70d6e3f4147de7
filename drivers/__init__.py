import pyvc.purepy
