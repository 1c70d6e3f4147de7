from . import purepy
