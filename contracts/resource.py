def config(cfg):
    cfg.auto_cands = False
    cfg.contracts = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor'}
