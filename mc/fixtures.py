"""Small maps built in memory through the public constructors."""
import numpy as np
from . import env
env.import_defdap()
import defdap  # noqa: E402
from defdap import ebsd, hrdic  # noqa: E402
from defdap.crystal import Phase  # noqa: E402
from defdap.experiment import Experiment, Frame  # noqa: E402

D = np.pi / 180


def phase(kind='fcc', name=None, c_over_a=1.6):
    if kind == 'fcc':
        return Phase(name or 'Ni', 11, 225, (3.5, 3.5, 3.5, 90*D, 90*D, 90*D))
    if kind == 'bcc':
        return Phase(name or 'Fe', 11, 229, (2.9, 2.9, 2.9, 90*D, 90*D, 90*D))
    if kind == 'hcp':
        return Phase(name or 'Ti', 9, 194, (3.0, 3.0, 3.0*c_over_a, 90*D, 90*D, 120*D))
    raise ValueError(kind)


_PHASES = {}


def get_phase(kind):
    if kind not in _PHASES:
        _PHASES[kind] = phase(kind)
    return _PHASES[kind]


class MemEbsd(ebsd.Map):
    """EBSD map whose 'file' is a set of arrays."""
    def __init__(self, euler, phase_im, phases, step_size=1.0, bc=None, bs=None, **kw):
        self._mem = (np.array(euler, dtype=float), np.array(phase_im), phases, step_size, bc, bs)
        kw.setdefault('experiment', Experiment())
        super().__init__('mem', **kw)

    def load_data(self, file_name, data_type=None):
        euler, phase_im, phases, step, bc, bs = self._mem
        self.shape = phase_im.shape
        self.step_size = step
        self.phases = list(phases)
        self.data.add('phase', phase_im, unit='', type='map', order=0, plot_params={'vmin': 0})
        self.data.add('euler_angle', euler, unit='rad', type='map', order=1,
                      default_component='all_euler')
        n = int(np.prod(self.shape))
        if bc is None:
            bc = (np.arange(n) % 251).astype(np.uint8).reshape(self.shape)
        if bs is None:
            bs = ((7 * np.arange(n) + 3) % 251).astype(np.uint8).reshape(self.shape)
        self.data.add('band_contrast', bc, unit='', type='map', order=0)
        self.data.add('band_slope', bs, unit='', type='map', order=0)


class MemDic(hrdic.Map):
    """HRDIC map whose 'file' is a displacement array (2, ny, nx)."""
    def __init__(self, disp, binning=1, **kw):
        self._mem = (np.array(disp, dtype=float), binning)
        kw.setdefault('experiment', Experiment())
        super().__init__('mem', **kw)

    def load_data(self, file_name, data_type=None):
        disp, binning = self._mem
        self.format, self.version, self.binning = 'mem', '0', binning
        self.shape = disp.shape[1:]
        self.ydim, self.xdim = self.shape
        yy, xx = np.mgrid[0:self.ydim, 0:self.xdim] * binning
        self.data.add('coordinate', np.array([xx, yy], dtype=float), unit='px', type='map', order=1)
        self.data.add('displacement', disp, unit='px', type='map', order=1)


def ebsd_map(shape, euler=None, phase_im=None, kinds=('fcc',), **kw):
    if euler is None:
        euler = np.zeros((3,) + tuple(shape))
    if phase_im is None:
        phase_im = np.ones(shape, dtype=np.uint8)
    return MemEbsd(euler, phase_im, [get_phase(k) for k in kinds], **kw)


def dic_map(shape=None, disp=None, binning=1, **kw):
    if disp is None:
        disp = np.zeros((2,) + tuple(shape))
    return MemDic(disp, binning, **kw)
