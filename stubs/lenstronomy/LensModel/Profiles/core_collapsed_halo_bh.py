class CoreCollapsedHaloBH(object):
    def density_lens(self, r, *a, **k):
        raise NotImplementedError

    def derivatives(self, *a, **k):
        raise NotImplementedError
