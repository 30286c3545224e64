def config(cfg):
    cfg.auto_cands = False
    cfg.unroll = ['']
    cfg.sym_unroll = 100
