_noenv()
import sys
import functools
import HGQ
import HGQ.bops.bops as bops
import HGQ.layers
import HGQ.layers.base as lb
import HGQ.layers.conv as lc
import HGQ.layers.dense as ld
import HGQ.layers.misc as lm
import HGQ.layers.passive_layers as lp
import HGQ.proxy
import HGQ.proxy.convert as pc
import HGQ.proxy.fixed_point_quantizer as fp
import HGQ.proxy.unary_lut as ul
import HGQ.quantizer
import HGQ.quantizer.quantizer as qz
import HGQ.utils
import HGQ.utils.utils as ut
from HGQ import Shutup
from HGQ._patch import patch_singledispatch
from HGQ.proxy.plugins import init_all

TOP = ((bops, ('CalibratedBOPs', 'FreeBOPs', 'ResetMinMax', 'trace_minmax')),
       (lc, ('HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm')),
       (ld, ('HDense', 'HDenseBatchNorm')),
       (lm, ('HQuantize',)),
       (lp, ('PAvgPool1D', 'PAvgPool2D', 'PConcatenate', 'PFlatten', 'PMaxPool1D', 'PMaxPool2D', 'PReshape', 'Signature')),
       (pc, ('to_proxy_model',)),
       (qz, ('HGQ',)),
       (ut, ('get_default_kq_conf', 'get_default_paq_conf', 'set_default_kq_conf', 'set_default_paq_conf')))
LAYERS = ((lb, ('HLayerBase',)),
          (lc, ('HConv', 'HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm')),
          (ld, ('HDense', 'HDenseBatchNorm')),
          (lm, ('HActivation', 'HAdd', 'HQuantize')),
          (lp, ('PAvgPool1D', 'PAvgPool2D', 'PMaxPool1D', 'PMaxPool2D', 'PConcatenate', 'PFlatten', 'PReshape', 'Signature', 'PMaxPooling1D', 'PMaxPooling2D', 'PAveragePooling1D', 'PAveragePooling2D')))
PROXY = ((pc, ('to_proxy_model',)), (fp, ('FixedPointQuantizer', 'fixed', 'gfixed', 'gfixed_quantizer', 'ufixed')), (ul, ('UnaryLUT',)))


def exported(pkg, table):
    for mod, names in table:
        for n in names:
            _is(n, getattr(pkg, n), getattr(mod, n))


def ob_exports():
    """public names refer to their implementation"""
    _case('HGQ', exported, HGQ, TOP)
    _case('HGQ.layers', exported, HGQ.layers, LAYERS)
    _case('HGQ.proxy', exported, HGQ.proxy, PROXY)
    _case('classes', named)


def named():
    for table in (TOP, LAYERS):
        for mod, names in table:
            for n in names:
                v = getattr(mod, n)
                if n not in ('PAvgPool1D', 'PAvgPool2D', 'PMaxPool1D', 'PMaxPool2D', 'PMaxPooling1D', 'PMaxPooling2D', 'PAveragePooling1D', 'PAveragePooling2D'):
                    _same(f'{n} is the implementation of that name', v.__name__, n)
    _is('pooling aliases', lp.PMaxPool1D, lp.PMaxPooling1D)
    _is('pooling aliases 2', lp.PMaxPool2D, lp.PMaxPooling2D)
    _is('pooling aliases 3', lp.PAvgPool1D, lp.PAveragePooling1D)
    _is('pooling aliases 4', lp.PAvgPool2D, lp.PAveragePooling2D)


def boom():
    raise RuntimeError('import failed')


def quiet(s, fail, depth):
    out, err = _obj('stdout'), _obj('stderr')
    sys.stdout, sys.stderr = out, err

    def body():
        with s:
            _isnot('output is swallowed', sys.stdout, out)
            _isnot('errors are swallowed', sys.stderr, err)
            sys.stdout.write('noise')
            sys.stderr.write('noise')
            sys.stdout.flush()
            sys.stderr.flush()
            if fail:
                boom()
    if fail:
        _raises('the failure is not hidden', body)
        try:
            body()
        except RuntimeError:
            pass
    else:
        body()
    _is('standard output', sys.stdout, out)
    _is('standard error', sys.stderr, err)


def ob_streams():
    """streams while and after importing"""
    for n, s in (('the instance', HGQ.shutup), ('a new one', None)):
        for fail in (False, True):
            _case(f'{n} {fail}', lambda: quiet(s or Shutup(), fail, 0))
    _case('again', again)


def again():
    s = Shutup()
    quiet(s, False, 0)
    quiet(s, True, 0)
    quiet(s, False, 0)


def unpatched(v):
    sys.version_info = v
    before = functools.singledispatch
    patch_singledispatch()
    _is('left alone', functools.singledispatch, before)


def patched(v):
    sys.version_info = v
    before = functools.singledispatch
    patch_singledispatch()
    _isnot('extended', functools.singledispatch, before)


def ob_interpreters():
    """standard library on the interpreters"""
    for v in ((3, 11), (3, 11, 0), (3, 11, 5), (3, 12, 3), (3, 13, 0), (4, 0, 0)):
        _case('python ' + '.'.join([str(n) for n in v]), unpatched, v)
    for v in ((3, 10), (3, 10, 0), (3, 10, 14), (3, 9, 1)):
        _case('python ' + '.'.join([str(n) for n in v]), patched, v)


def missing():
    _assume_missing('qkeras')
    init_all()


def ob_plugins():
    """missing optional packages"""
    _importable('the package can be imported')
    _case('qkeras', missing)
