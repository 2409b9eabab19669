"""Stand-ins for the outside world used by the terrain clients when they run natively: an in-memory elevation model."""
import rasterio
import numpy as np
from rasterio.transform import from_origin

_LIVE = []


def plane(g0, gx, gy):
    """path of an in-memory elevation model g0 + gx * lon + gy * lat over [0, 2] x [0, 2] degrees"""
    return _write(lambda lon, lat: g0 + gx * lon + gy * lat)


def pitted(g0, gx, gy):
    """the same with holes: a fifth of the pixels, spread out, hold the no-data value -9999 (not announced in the file)"""
    return _write(lambda lon, lat: g0 + gx * lon + gy * lat, True)


def _write(fn, pits=False):
    n, s = 400, 0.005
    lon = s * (np.arange(n) + 0.5)
    lat = 2 - s * (np.arange(n) + 0.5)
    a = fn(lon[None, :], lat[:, None]) + np.zeros((n, n))
    if pits:
        i = np.arange(n)
        a[(7 * i[:, None] + 3 * i[None, :]) % 5 == 0] = -9999
    m = rasterio.MemoryFile()
    with m.open(driver='GTiff', width=n, height=n, count=1, dtype='float64', crs='EPSG:4326', transform=from_origin(0, 2, s, s)) as d:
        d.write(a, 1)
    for old in _LIVE:
        old.close()
    _LIVE[:] = [m]
    return m.name


def ring(poly, lon, lat):
    """smallest and largest geodesic distance of the polygon's corners from (lon, lat), and their number"""
    import pyproj
    g = pyproj.Geod(ellps='WGS84')
    ds = [g.inv(lon, lat, x, y)[2] for x, y in poly.exterior.coords]
    return min(ds), max(ds), len(ds)


_DIRS = []


def folder(made):
    """path of a scratch folder: there already, holding an older and longer table (1), or not there yet (0)"""
    import atexit
    import os
    import shutil
    import tempfile
    while _DIRS:
        shutil.rmtree(_DIRS.pop(), ignore_errors=True)
    top = tempfile.mkdtemp(prefix='itmlogic-table-')
    _DIRS.append(top)
    atexit.register(shutil.rmtree, top, True)
    d = os.path.join(top, 'results')
    if made == 1:
        os.mkdir(d)
        with open(os.path.join(d, 'table.csv'), 'w') as f:
            f.write('old,columns\n' + '1,2\n' * 500)
    else:
        d = os.path.join(d, 'deep')
    return d


def table(directory, filename):
    """(column names, rows) of a written table"""
    import csv
    import os
    with open(os.path.join(directory, filename), newline='') as f:
        lines = list(csv.reader(f))
    return lines[0], [tuple(float(x) for x in r) for r in lines[1:]]


def older(directory, filename):
    """where the folder is there already: an older and longer shapefile of that name"""
    import os
    import fiona
    if os.path.isdir(directory):
        with fiona.open(os.path.join(directory, filename), 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                        schema={'geometry': 'Point', 'properties': {'old': 'int'}}) as f:
            f.writerecords([{'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (1.0, 1.0)}, 'properties': {'old': 1}}] * 60)


def shapes(directory, filename):
    """(geometry type, ((field, type), ...), reference system, records) of a written shapefile"""
    import os
    import fiona
    with fiona.open(os.path.join(directory, filename)) as f:
        fields = tuple((k, v.split(':')[0]) for k, v in f.schema['properties'].items())
        rows = [tuple(r['geometry']['coordinates']) + tuple(r['properties'][k] for k, _ in fields) for r in f]
        return f.schema['geometry'], fields, 'EPSG:%d' % f.crs.to_epsg(), rows
