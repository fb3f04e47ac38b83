"""Import everything once per worker, before any run is forked."""
import importlib
import os
import sys

REPO = os.environ.get('RESIPPY_REPO', '/repo')
ABSENT = {'pdal', 'keras', 'keras_applications', 'tensorflow', 'gdal2tiles'}


def import_all():
    top = os.path.join(REPO, 'resippy')
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
            if m.endswith('.__init__'):
                m = m[:-9]
            try:
                importlib.import_module(m)
            except ModuleNotFoundError as e:
                if (e.name or '').split('.')[0] in ABSENT:
                    continue
                raise
            except Exception as e:      # a run that needs it says so
                sys.stderr.write('warm: %s: %s\n' % (m, e))
    if not os.path.abspath(sys.modules['resippy'].__file__).startswith(REPO + os.sep):
        raise RuntimeError('resippy is not the tree under test')


def warm():
    import gdal
    import numpy as np
    import osr
    from pyproj import Proj
    import_all()
    gdal.AllRegister()
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    import core
    p = os.path.join(core.scratch_base(), 'rsimwarm%d.tif' % os.getpid())
    ds = gdal.GetDriverByName('GTiff').Create(p, 4, 4, 1)
    s = osr.SpatialReference()
    for e in (4326, 32618, 3857, 2263, 32733):
        pr = Proj('EPSG:%d' % e, preserve_units=True)
        s.ImportFromProj4(pr.srs)
        ds.SetProjection(s.ExportToWkt())
        pr.crs.is_geographic
    ds.GetRasterBand(1).WriteArray(np.zeros((4, 4), np.uint8))
    ds = None
    gdal.Open(p).GetProjection()
    os.unlink(p)
