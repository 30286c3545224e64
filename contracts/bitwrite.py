import z3, mem, os, importlib.util
from values import *
_s = importlib.util.spec_from_file_location('bitread', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bitread.py'))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)

def config(cfg):
    cfg.spec = {'bits': _b._bits, 'little': _b.little}
    cfg.auto_cands = False
    cfg.contracts = dict(_b.EXC)
    cfg.unroll = ['']

def per_harness(h, cfg):
    if h == 'h_little_put':
        cfg.contracts[r'::_putbits\(unsigned int, short\)$'] = 'vcc_put'
