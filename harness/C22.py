from pyvc.hapi import Registry
from place import *
CONTRACTS = Registry()


@CONTRACTS('every step makes progress', functions=[UP + 'place_rooms'], cover=['door removed', 'room placed'], opts={'branch_timeout': 100})
def c_progress(E):
    if not E.sym: return concrete_place(E)
    place(E)
