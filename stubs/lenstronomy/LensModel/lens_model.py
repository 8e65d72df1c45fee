class LensModel(object):
    """stand-in: records its arguments; ray shooting is supplied by the harness"""

    def __init__(self, lens_model_list=None, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None, multi_plane=False, **kwargs):
        self.lens_model_list, self.redshift_list, self.z_source = lens_model_list, lens_redshift_list, z_source
