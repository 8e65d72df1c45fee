class LensModelExtensions(object):
    def __init__(self, *a, **k):
        pass
