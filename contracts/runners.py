"""Verification clients of the command-line runners in /repo/scripts (same convention as harness.py)."""
import p2p
import p2p_2tiles
import area
import area_2tiles
import pimter
import nativelib


def c_p2p(z, fmhz, d, hg0, hg1, ipol):
    return {'rows': p2p.itmlogic_p2p({'fmhz': fmhz, 'd': d, 'hg': [hg0, hg1], 'ipol': ipol}, z)}


def c_p2p_2tiles(z, fmhz, d, hg0, hg1, ipol):
    return {'rows': p2p_2tiles.itmlogic_p2p({'fmhz': fmhz, 'd': d, 'hg': [hg0, hg1], 'ipol': ipol}, z)}


def c_area(fmhz, hg0, hg1, ipol, dh):
    return {'rows': area.itmlogic_area({'fmhz': fmhz, 'hg': [hg0, hg1], 'ipol': ipol, 'dh': dh})}


def c_area_2tiles(fmhz, hg0, hg1, ipol, dh):
    return {'rows': area_2tiles.itmlogic_area({'fmhz': fmhz, 'hg': [hg0, hg1], 'ipol': ipol, 'dh': dh})}


def c_pimter(z, xi):
    return {'rows': pimter.run_itmlogic(z, [xi * k for k in range(len(z))])}


def site(x, y):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': {'id': 'site'}}


def c_line(ax, ay, bx, by):
    return {'line': p2p.straight_line_from_points(site(ax, ay), site(bx, by)),
            'line2': p2p_2tiles.straight_line_from_points(site(ax, ay), site(bx, by))}


def written(mod, x, y, made):
    d = nativelib.folder(made)
    mod.csv_writer([{'distance_km': v, 'confidence_level_%': y, 'propagation_loss_dB': 100 + v / 2} for v in x], d, 'table.csv')
    header, rows = nativelib.table(d, 'table.csv')
    return {'header': header, 'distance': [r[0] for r in rows], 'level': [r[1] for r in rows], 'loss': [r[2] for r in rows]}


def c_csv_p2p(x, y, made):
    return written(p2p, x, y, made)


def c_csv_p2p2(x, y, made):
    return written(p2p_2tiles, x, y, made)


def c_csv_area(x, y, made):
    return written(area, x, y, made)


def c_csv_area2(x, y, made):
    return written(area_2tiles, x, y, made)


def point(x, y, z):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': {'elevation': z, 'id': 'site', 'mast': z / 4}}


def shaped(mod, x, y, made):
    d = nativelib.folder(made)
    nativelib.older(d, 'points.shp')
    mod.write_shapefile([point(v / 8, y, 2 * v + 1) for v in x], d, 'points.shp', 'EPSG:4326')
    mod.write_shapefile([point(y, 2 * y, 1 - y)], d, 'receiver.shp', 'epsg:3857')
    geometry, fields, crs, rows = nativelib.shapes(d, 'points.shp')
    geometry1, fields1, crs1, rows1 = nativelib.shapes(d, 'receiver.shp')
    return {'geometry': geometry, 'fields': fields, 'crs': crs, 'lon': [r[0] for r in rows], 'lat': [r[1] for r in rows],
            'elevation': [r[2] for r in rows], 'mast': [r[4] for r in rows], 'named': [1 if r[3] == 'site' else 0 for r in rows], 'one.geometry': geometry1, 'one.fields': fields1, 'one.crs': crs1, 'one.n': len(rows1),
            'one.lon': rows1[0][0], 'one.lat': rows1[0][1], 'one.elevation': rows1[0][2], 'one.id': rows1[0][3], 'one.mast': rows1[0][4]}


def c_shp_p2p(x, y, made):
    return shaped(p2p, x, y, made)


def c_shp_p2p2(x, y, made):
    return shaped(p2p_2tiles, x, y, made)
