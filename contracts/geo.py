"""Assumed contracts of the geometry and raster libraries (shapely, pyproj, rasterstats): uninterpreted functions of the line's
vertices.  A line has a planar length and a point at every arc length; a raster has a value at every point."""
from engine import terms as t
from engine.pysym import Unsupported, Ref, DictObj, ListObj, Tail, Opaque, SymIter, Builtin
from engine.terms import T
from engine.builtins_ import appended


def coords(ex, st, v, node):
    out = []
    for q in ex.as_seq(st, v, node):
        xy = ex.as_seq(st, q, node)
        if len(xy) != 2:
            raise Unsupported('coordinates', node)
        out += [t.num(ex.numeric(x, node)) for x in xy]
    return tuple(out)


def linestring(ex, st, args, kw, node):
    return line(ex, coords(ex, st, args[0], node))


def line(ex, c):
    ex.facts.append(t.le(t.ZERO, t.app('line_len', *c)))
    return Opaque('line', c)


def shape(ex, st, args, kw, node):
    d = ex.obj(st, args[0])
    return line(ex, coords(ex, st, d.items['coordinates'], node))


def prop(f):
    f.is_property = True
    return f


@prop
def line_length(ex, st, o):
    return t.app('line_len', *o.data)


def interpolate(ex, st, args, kw, node):
    o, s = args[0], t.num(ex.numeric(args[1], node))
    norm = kw.get('normalized', args[2] if len(args) > 2 else t.FALSE)
    if norm is True or norm is t.TRUE:
        s = t.mul(s, t.app('line_len', *o.data))
    elif not (norm is False or norm is t.FALSE):
        raise Unsupported('interpolate', node)
    # the library measures from the other end for negative distances
    if not ex.entails(st, t.le(t.ZERO, s)):
        s = t.ite(t.le(t.ZERO, s), s, t.add(s, t.app('line_len', *o.data)))
    return Opaque('point', (s,) + o.data)


def px(o, axis):
    return t.app('line_' + axis, *o.data)


@prop
def point_x(ex, st, o):
    return px(o, 'x')


@prop
def point_y(ex, st, o):
    return px(o, 'y')


@prop
def point_coords(ex, st, o):
    return ((px(o, 'x'), px(o, 'y')),)


def geod(ex, st, args, kw, node):
    if kw.get('ellps') != 'WGS84' or args:
        raise Unsupported('ellipsoid', node)
    return Opaque('geod')


def geometry_length(ex, st, args, kw, node):
    o = args[1]
    if not isinstance(o, Opaque) or o.what != 'line':
        raise Unsupported('geometry_length', node)
    r = t.app('geo_len', *o.data)
    ex.facts.append(t.le(t.ZERO, r))
    return r


def mapping(ex, st, args, kw, node):
    o = args[0]
    if not isinstance(o, Opaque) or o.what != 'point':
        raise Unsupported('mapping', node)
    return ex.alloc(st, DictObj({'type': 'Point', 'coordinates': (px(o, 'x'), px(o, 'y'))}))


def point_query(ex, st, args, kw, node):
    if len(args) != 2 or kw or not isinstance(args[1], Opaque) or args[1].what != 'dem':
        raise Unsupported('point_query %s' % getattr(locals().get('o'), 'what', ''), node)
    g = args[1].data

    def one(o):
        if not isinstance(o, Opaque) or o.what != 'point':
            raise Unsupported('point_query %s' % getattr(locals().get('o'), 'what', ''), node)
        return t.app('dem_at', px(o, 'x'), px(o, 'y'), *g)
    c = ex.iter_concrete(st, args[0], node)
    if c is not None:
        return ex.alloc(st, ListObj([one(o) for o in c]))
    si = ex.iter_symbolic(st, args[0], node)
    return ex.alloc(st, ListObj([], Tail(si.n, lambda k: one(si.fn(k)))))


def h_ring(ex, st, args, kwargs, node):
    """azimuthal equidistant: true distances from the centre (that of the measurement, or the result is not known)"""
    o = args[0]
    if not isinstance(o, Opaque) or o.what != 'cell' or o.data[0] is not args[1] or o.data[1] is not args[2]:
        raise Unsupported('outline', node)
    return (o.data[2], o.data[2], t.num(65))


def h_plane(ex, st, args, kwargs, node):
    return Opaque('dem', tuple(args))


# ------------------------------------------------------------------ area cells
def from_crs(ex, st, args, kw, node):
    """a local azimuthal equidistant projection to longitude and latitude"""
    a, b = (list(args) + [kw.get('crs_from'), kw.get('crs_to')])[:2] if len(args) == 2 else (None, None)
    if a is None or not isinstance(a, Opaque) or a.what != 'str' or not a.data or kw.get('always_xy') not in (True, t.TRUE) or \
            set(kw) != {'always_xy'} or not (isinstance(b, str) and b.lower() == 'epsg:4326'):
        raise Unsupported('projection', node)
    # "+key=value ..." with the two values where they stand
    words, i = {}, 0
    txt = ''.join(x if isinstance(x, str) else '\0%d\0' % k for k, x in enumerate(a.data))
    for w in txt.split():
        k, _, v = w.partition('=')
        words[k.lstrip('+')] = a.data[int(v.strip('\0'))] if v.startswith('\0') else v
    lon, lat = words.pop('lon_0', None), words.pop('lat_0', None)
    if words.pop('proj', None) != 'aeqd' or not isinstance(lon, T) or not isinstance(lat, T):
        raise Unsupported('projection', node)
    ok = {'x_0': '0', 'y_0': '0', 'datum': 'WGS84', 'ellps': 'WGS84', 'units': 'm', 'no_defs': ''}
    for k, v in words.items():
        if ok.get(k) != v and not (k in ('x_0', 'y_0') and v == '0.0'):
            raise Unsupported('projection', node)
    return Opaque('aeqd', (lon, lat))


def point(ex, st, args, kw, node):
    if len(args) == 1:
        args = ex.as_seq(st, args[0], node)
    return Opaque('pt', tuple(t.num(ex.numeric(x, node)) for x in args))


def buffer(ex, st, args, kw, node):
    if len(args) != 2 or kw:
        raise Unsupported('buffer', node)
    return Opaque('disc', args[0].data + (t.num(ex.numeric(args[1], node)),))


def project(ex, st, args, kw, node):
    raise Unsupported('projection of a point', node)


def transform(ex, st, args, kw, node):
    f, g = args
    o = getattr(f, 'obj', None)
    if getattr(f, 'name', None) != 'transform' or not isinstance(o, Opaque) or o.what != 'aeqd' or \
            not isinstance(g, Opaque) or g.what != 'disc' or g.data[0] is not t.ZERO or g.data[1] is not t.ZERO:
        raise Unsupported('transform', node)
    return Opaque('cell', o.data + g.data[2:])


def gen_zonal(ex, st, args, kw, node):
    shapes = ex.as_seq(st, args[0], node)
    if len(args) != 2 or not isinstance(args[1], Opaque) or args[1].what != 'dem':
        raise Unsupported('zonal statistics', node)
    nod = kw.get('nodata')
    add = kw.get('add_stats')
    if set(kw) - {'nodata', 'add_stats', 'stats'} or not isinstance(nod, T):
        raise Unsupported('zonal statistics', node)
    out = []
    for c in shapes:
        if not isinstance(c, Opaque) or c.what != 'cell':
            raise Unsupported('zonal statistics', node)
        px = Opaque('masked', c.data + args[1].data + (nod,))
        items = {} if add is None else ex.obj(st, add).items
        d = {k: ex.call(st, f, [px], {}, node) for k, f in items.items()}
        out.append(ex.alloc(st, DictObj(d)))
    return out


def zonal(ex, st, args, kw, node):
    return ex.alloc(st, ListObj(gen_zonal(ex, st, args, kw, node)))


def pixels(ex, st, args, kw, node):
    d = args[0].data
    return ex.alloc(st, ListObj([], Tail(t.app('pix_n', *d), lambda k: t.app('pix_at', k, *d)), 'nd'))


# ------------------------------------------------------------------ result files: a ghost folder
def h_folder(ex, st, args, kwargs, node):
    """an empty folder (first argument 1) or a path where none exists yet (0)"""
    made = t.eq(t.num(args[0]), t.ONE)
    return Opaque('folder', (ex.alloc(st, DictObj({'made': made})),))


def is_path(v, what):
    return isinstance(v, Opaque) and v.what == what


def path_exists(ex, st, args, kw, node):
    if is_path(args[0], 'folder'):
        return ex.obj(st, args[0].data[0]).items['made']
    raise Unsupported('exists', node)


def makedirs(ex, st, args, kw, node):
    if not is_path(args[0], 'folder') or set(kw) - {'exist_ok'} or len(args) != 1:
        raise Unsupported('makedirs', node)
    d = ex.wobj(st, args[0].data[0])
    if kw.get('exist_ok', t.FALSE) not in (True, t.TRUE):
        ex.oblige(st, 'pre', t.not_(d.items['made']), node, 'makedirs requires: no folder yet')
    d.items['made'] = t.TRUE


def path_join(ex, st, args, kw, node):
    if len(args) == 2 and is_path(args[0], 'folder') and isinstance(args[1], str):
        return Opaque('fpath', (args[0].data[0], args[1]))
    raise Unsupported('join', node)


def file_open(ex, st, args, kw, node):
    mode = args[1] if len(args) > 1 else kw.get('mode')
    if not args or not is_path(args[0], 'fpath') or mode != 'w' or len(args) > 2 or set(kw) - {'mode', 'newline', 'encoding'}:
        raise Unsupported('open', node)
    ref, name = args[0].data
    d = ex.wobj(st, ref)
    ex.oblige(st, 'pre', d.items['made'], node, 'open requires: the folder')
    d.items['file ' + name] = ex.alloc(st, ListObj([]))
    return Opaque('file', (ref, name))


def dict_writer(ex, st, args, kw, node):
    a = list(args)
    names = a[1] if len(a) > 1 else kw.get('fieldnames')
    if not is_path(a[0], 'file') or len(a) > 2 or set(kw) - {'fieldnames', 'lineterminator'}:
        raise Unsupported('DictWriter', node)
    names = tuple(ex.as_seq(st, names, node)) if not (isinstance(names, Ref) and isinstance(ex.obj(st, names), DictObj)) else \
        tuple(ex.obj(st, names).items)
    if not all(isinstance(x, str) for x in names):
        raise Unsupported('DictWriter', node)
    return Opaque('dictwriter', a[0].data + (names,))


def content(ex, st, w):
    return ex.obj(st, w.data[0]).items['file ' + w.data[1]]


def write_header(ex, st, args, kw, node):
    o = ex.wobj(st, content(ex, st, args[0]))
    if o.items or o.tail is not None:
        raise Unsupported('header after rows', node)
    o.items.append(args[0].data[2])


def row_of(ex, st, w, r, node):
    o = ex.obj(st, r)
    if not isinstance(o, DictObj) or set(o.items) != set(w.data[2]):
        raise Unsupported('row', node)
    return tuple(t.num(ex.numeric(o.items[k], node)) for k in w.data[2])


def add_row(ex, st, o, row, node):
    if o.tail is None:
        o.items.append(row)
    else:
        old = o.tail
        o.tail = Tail(t.add(old.n, t.ONE), lambda k: appended(ex, st, row, old, k, node), ('append', row, old))


def write_row(ex, st, args, kw, node):
    o = ex.wobj(st, content(ex, st, args[0]))
    add_row(ex, st, o, row_of(ex, st, args[0], args[1], node), node)


def write_rows(ex, st, args, kw, node):
    w = args[0]
    c = ex.iter_concrete(st, args[1], node)
    o = ex.wobj(st, content(ex, st, w))
    if o.tail is not None:
        raise Unsupported('rows after rows', node)
    if c is not None:
        o.items.extend(row_of(ex, st, w, r, node) for r in c)
        return
    si = ex.iter_symbolic(st, args[1], node)
    o.tail = Tail(si.n, lambda k: row_of(ex, st, w, si.fn(k), node))


def csv_plain(ex, st, args, kw, node):
    if len(args) != 1 or not is_path(args[0], 'file') or set(kw) - {'lineterminator'}:
        raise Unsupported('csv.writer', node)
    return Opaque('csvwriter', args[0].data)


def plain_row(ex, st, v, node):
    return tuple(x if isinstance(x, str) else t.num(ex.numeric(x, node)) for x in ex.as_seq(st, v, node))


def plain_writerow(ex, st, args, kw, node):
    v = args[1]
    if isinstance(v, Ref) and isinstance(ex.obj(st, v), DictObj):
        v = tuple(ex.obj(st, v).items)
    add_row(ex, st, ex.wobj(st, content(ex, st, args[0])), plain_row(ex, st, v, node), node)


def plain_writerows(ex, st, args, kw, node):
    o = ex.wobj(st, content(ex, st, args[0]))
    c = ex.iter_concrete(st, args[1], node)
    if o.tail is not None:
        raise Unsupported('rows after rows', node)
    if c is not None:
        o.items.extend(plain_row(ex, st, r, node) for r in c)
        return
    si = ex.iter_symbolic(st, args[1], node)
    o.tail = Tail(si.n, lambda k: plain_row(ex, st, si.fn(k), node))


def file_close(ex, st, args, kw, node):
    return None


def h_table(ex, st, args, kwargs, node):
    """(column names, rows) of a written table"""
    o = ex.obj(st, ex.obj(st, args[0].data[0]).items['file ' + args[1]])
    if not o.items or not isinstance(o.items[0], tuple) or not all(isinstance(x, str) for x in o.items[0]):
        raise Unsupported('no header', node)
    return (ex.alloc(st, ListObj(list(o.items[0]))), ex.alloc(st, ListObj(o.items[1:], o.tail)))


# ------------------------------------------------------------------ shapefiles (fiona): a schema and a list of records
FIELD_TYPES = (('int32', 'int'), ('float', 'float'), ('str', 'str'), ('date', 'FionaDateType'), ('time', 'FionaTimeType'),
               ('datetime', 'FionaDateTimeType'), ('bytes', 'bytes'), ('int64', 'int'), ('int', 'int'))


def field_types(ex, st, args, kw, node):
    return tuple((k, Builtin(v)) for k, v in FIELD_TYPES)


def type_of(ex, st, args, kw, node):
    if len(args) == 1 and isinstance(args[0], str):
        return Builtin('str')
    if len(args) == 1 and isinstance(args[0], T) and not t.is_bool(args[0]) and not t.is_const(args[0]):
        return Builtin('int' if args[0].isint else 'float')
    raise Unsupported('type', node)


def ordered(ex, st, args, kw, node):
    if kw or len(args) > 1:
        raise Unsupported('OrderedDict', node)
    if not args:
        return ex.alloc(st, DictObj({}))
    if isinstance(args[0], Ref) and isinstance(ex.obj(st, args[0]), DictObj):
        return ex.alloc(st, DictObj(dict(ex.obj(st, args[0]).items)))
    d = {}
    for q in ex.as_seq(st, args[0], node):
        k, v = ex.as_seq(st, q, node)
        if not isinstance(k, str):
            raise Unsupported('OrderedDict', node)
        d[k] = v
    return ex.alloc(st, DictObj(d))


def shp_open(ex, st, args, kw, node):
    a = list(args)
    mode = a[1] if len(a) > 1 else kw.get('mode')
    if not a or not is_path(a[0], 'fpath') or len(a) > 2 or mode != 'w' or set(kw) - {'mode', 'driver', 'crs', 'schema'} or \
            kw.get('driver') != 'ESRI Shapefile':
        raise Unsupported('fiona.open', node)
    crs = kw.get('crs')
    if isinstance(crs, Ref):
        c = ex.obj(st, crs)
        crs = c.items.get('init') if isinstance(c, DictObj) and set(c.items) == {'init'} else None
    sch = ex.obj(st, kw['schema']) if isinstance(kw.get('schema'), Ref) else None
    if not isinstance(crs, str) or not isinstance(sch, DictObj) or set(sch.items) != {'geometry', 'properties'}:
        raise Unsupported('fiona.open', node)
    ps = ex.obj(st, sch.items['properties'])
    geom = sch.items['geometry']
    if not isinstance(ps, DictObj) or not isinstance(geom, str) or not all(isinstance(x, str) for x in ps.items.values()):
        raise Unsupported('fiona.open', node)
    ref, name = a[0].data
    d = ex.wobj(st, ref)
    ex.oblige(st, 'pre', d.items['made'], node, 'fiona.open requires: the folder')
    d.items['file ' + name] = ex.alloc(st, ListObj([]))
    meta = (geom, tuple(ps.items.items()), crs.upper())
    d.items['meta ' + name] = meta
    return Opaque('sink', (ref, name, meta))


def shp_row(ex, st, sink, v, node):
    geom, fields, _ = sink.data[2]
    o = ex.obj(st, v) if isinstance(v, Ref) else None
    if not isinstance(o, DictObj) or not {'geometry', 'properties'} <= set(o.items):
        raise Unsupported('feature', node)
    g, p = ex.obj(st, o.items['geometry']), ex.obj(st, o.items['properties'])
    if g.items.get('type') != geom or geom != 'Point' or set(p.items) != {k for k, _ in fields}:
        raise Unsupported('feature', node)
    xy = ex.as_seq(st, g.items['coordinates'], node)
    if len(xy) != 2:
        raise Unsupported('feature', node)
    row = tuple(t.num(ex.numeric(x, node)) for x in xy)
    for k, ty in fields:
        x = p.items[k]
        ok = isinstance(x, str) if ty == 'str' else isinstance(x, T) and (ty == 'float' or ty[:3] == 'int' and x.isint)
        if not ok:
            raise Unsupported('attribute type', node)
        row += (x,)
    return row


def shp_write(ex, st, args, kw, node):
    add_row(ex, st, ex.wobj(st, content(ex, st, args[0])), shp_row(ex, st, args[0], args[1], node), node)


def shp_writerecords(ex, st, args, kw, node):
    o = ex.wobj(st, content(ex, st, args[0]))
    c = ex.iter_concrete(st, args[1], node)
    if o.tail is not None:
        raise Unsupported('records after records', node)
    if c is not None:
        o.items.extend(shp_row(ex, st, args[0], r, node) for r in c)
        return
    si = ex.iter_symbolic(st, args[1], node)
    o.tail = Tail(si.n, lambda k: shp_row(ex, st, args[0], si.fn(k), node))


def h_shapes(ex, st, args, kwargs, node):
    """(geometry type, ((field, type), ...), reference system, records) of a written shapefile"""
    d = ex.obj(st, args[0].data[0]).items
    o = ex.obj(st, d['file ' + args[1]])
    geom, fields, crs = d['meta ' + args[1]]
    return (geom, fields, crs, ex.alloc(st, ListObj(list(o.items), o.tail)))


def h_older(ex, st, args, kwargs, node):
    return None


FILES = {'os.path.exists': path_exists, 'os.path.isdir': path_exists, 'os.makedirs': makedirs, 'os.path.join': path_join,
         'open': file_open, 'with:file': True, 'csv.DictWriter': dict_writer, 'dictwriter.writeheader': write_header,
         'csv.writer': csv_plain, 'csvwriter.writerow': plain_writerow,
         'csvwriter.writerows': plain_writerows, 'file.close': file_close,
         'fiona.FIELD_TYPES_MAP': Opaque('ftypes'), 'ftypes.items': field_types, 'type': type_of, 'collections.OrderedDict': ordered,
         'fiona.open': shp_open, 'with:sink': True, 'sink.write': shp_write, 'sink.writerecords': shp_writerecords, 'sink.close': file_close, 'dictwriter.writerow': write_row, 'dictwriter.writerows': write_rows}
EXTERNALS = {'shapely.geometry.LineString': linestring, 'shapely.geometry.shape': shape, 'line.length': line_length,
             'line.interpolate': interpolate, 'point.x': point_x, 'point.y': point_y, 'point.coords': point_coords,
             'pyproj.Geod': geod, 'geod.geometry_length': geometry_length, 'shapely.geometry.mapping': mapping,
             'rasterstats.point_query': point_query,
             'pyproj.Transformer.from_crs': from_crs, 'pyproj.transformer.Transformer.from_crs': from_crs,
             'shapely.geometry.Point': point, 'pt.buffer': buffer, 'shapely.ops.transform': transform, 'aeqd.transform': project,
             'rasterstats.gen_zonal_stats': gen_zonal, 'rasterstats.zonal_stats': zonal, 'masked.compressed': pixels}
