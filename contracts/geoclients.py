"""Verification clients of the terrain module (same convention as harness.py)."""
import terrain_module
import nativelib


def c_num_samples(d):
    return {'n': terrain_module.determine_num_samples(d)}


def c_num_pair(d, more):
    return {'a': terrain_module.determine_num_samples(d), 'b': terrain_module.determine_num_samples(d + more)}


def c_interdecile(x):
    return {'r': terrain_module.interdecile_range(x)}


def c_terrain_p2p(x0, y0, x1, y1, x2, y2, g0, gx, gy):
    dem = nativelib.plane(g0, gx, gy)
    line = {'type': 'Feature', 'properties': {},
            'geometry': {'type': 'LineString', 'coordinates': [(x0, y0), (x1, y1), (x2, y2)]}}
    profile, distance_km, points = terrain_module.terrain_p2p(dem, line)
    return {'profile': profile, 'distance_km': distance_km,
            'lon': [q['geometry']['coordinates'][0] for q in points],
            'lat': [q['geometry']['coordinates'][1] for q in points],
            'elev': [q['properties']['elevation'] for q in points]}


def c_buffer(lon, lat, radius):
    lo, hi, n = nativelib.ring(terrain_module.geodesic_point_buffer(lon, lat, radius), lon, lat)
    return {'lo': lo, 'hi': hi, 'n': n}


def c_terrain_area(lon, lat, radius, g0, gx, gy):
    return {'dh': terrain_module.terrain_area(nativelib.pitted(g0, gx, gy), lon, lat, radius)}
