"""which module holds the contracts of a property"""
import importlib
MODULES = {
    'mailbox': ['C01', 'C02', 'C03', 'C04', 'C05'],
    'ownership': ['C06', 'C07'],
    'codecs': ['C08', 'C09', 'C28'],
    'merkle': ['C10', 'C11'],
    'multisig': ['C12', 'C13'],
    'aggism': ['C14'],
    'routing': ['C15', 'C16', 'C17'],
    'fees': ['C18', 'C19'],
    'igp': ['C20', 'C21'],
    'warp': ['C22', 'C23'],
    'router': ['C24'],
    'announce': ['C25'],
    'lifecycle': ['C26', 'C27'],
}
BY = {p: m for m, ps in MODULES.items() for p in ps}


def contracts(P, prop):
    m = importlib.import_module('contracts.' + BY[prop])
    return [c for c in m.contracts(P) if c.prop == prop]
NOTES = {}
