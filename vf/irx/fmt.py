def install(ex, reg, msg):
    pass
