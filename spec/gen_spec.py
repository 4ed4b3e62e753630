#!/usr/bin/env python3
"""Independent reading of the tag definitions: flattens /repo's JSON into the layout the reference serializer uses.

Run by hand once, on the pinned tree; the result (layout.json) is committed and is the specification of the on-disk
format the checks hold the code to. It shares no code with ringhopper's own definition parser or code generator.
"""
import json, glob, sys, re
root = sys.argv[1] if len(sys.argv) > 1 else '/repo/src/ringhopper-definitions/json'
objs, groups, engines = {}, {}, {}
for f in sorted(glob.glob(root + '/**/*.json', recursive=True)):
    for o in json.load(open(f)):
        d = {'group': groups, 'engine': engines}.get(o['type'], objs)
        assert o['name'] not in d
        d[o['name']] = o

PRIM = {'float': 4, 'uint8': 1, 'uint16': 2, 'uint32': 4, 'int8': 1, 'int16': 2, 'int32': 4, 'Angle': 4, 'Rectangle': 8,
        'Vector2D': 8, 'Vector3D': 12, 'CompressedVector2D': 4, 'CompressedVector3D': 4, 'CompressedFloat': 2, 'Euler2D': 8,
        'Euler3D': 12, 'Plane2D': 12, 'Plane3D': 16, 'Quaternion': 16, 'Matrix3x3': 36, 'ColorRGBFloat': 12,
        'ColorARGBFloat': 16, 'ColorARGBInt': 4, 'String32': 32, 'Address': 4, 'Index': 2, 'Vector2DInt': 4, 'TagID': 4, 'ID': 4,
        'ScenarioScriptNodeValue': 4, 'TagGroup': 4, 'Reflexive': 12, 'TagReference': 16, 'Data': 20, 'FileData': 20,
        'BSPVertexData': 20, 'UTF16String': 20}

def safe(n):
    n = n.replace('-', '_').replace(' ', '_')
    return re.sub("['\"()]", '', n).lower()

def snake(p):
    out, last = '', 'A'
    for c in p:
        if c.isupper() and not last.isupper(): out += '_'
        last = c
        out += c.lower()
    return out

def size_of(t):
    if t in PRIM: return PRIM[t]
    o = objs[t]
    if o['type'] == 'enum': return 2
    if o['type'] == 'bitfield': return o['width'] // 8
    return o['size']

FLAGS = ('non_cached', 'cache_only', 'exclude', 'little_endian', 'read_only', 'shifted_by_one', 'non_null')
def flags(o): return {k: True for k in FLAGS if o.get(k)} | ({'comment': o['comment']} if 'comment' in o else {})

def children(p):
    if p == '*': return sorted(groups)
    if p == 'model': return ['gbxmodel']
    r = []
    for g in sorted(groups):
        if groups[g].get('supergroup') == p: r += [g] + children(g)
    return r

structs, enums, bitfields = {}, {}, {}
for name, o in objs.items():
    if o['type'] == 'enum':
        enums[name] = [{'name': safe(v if isinstance(v, str) else v['name']), **({} if isinstance(v, str) else flags(v))} for v in o['options']]
    elif o['type'] == 'bitfield':
        bitfields[name] = {'width': o['width'], 'fields': [{'name': safe(v if isinstance(v, str) else v['name']), **({} if isinstance(v, str) else flags(v))} for v in o['fields']]}
    else:
        fs, off = [], 0
        sf = flags(o)
        if 'inherits' in o:
            fs.append({'name': snake(o['inherits']), 'type': o['inherits'], 'offset': 0, 'count': 1})
            off = size_of(o['inherits'])
        for f in o['fields']:
            if f['type'] == 'editor_section': continue
            if f['type'] == 'pad':
                off += f['size']; continue
            n = 2 if f.get('bounds') else f.get('count', 1)
            e = {'name': safe(f['name']), 'type': f['type'], 'offset': off, 'count': n}
            if f.get('bounds'): e['bounds'] = True
            elif 'count' in f: e['array'] = True
            e.update(flags(f)); 
            for k in sf:
                if k in ('non_cached', 'cache_only', 'exclude', 'little_endian', 'shifted_by_one', 'read_only', 'non_null'): e[k] = True
            if f['type'] == 'Reflexive': e['struct'] = f['struct']
            if f['type'] == 'TagReference':
                g = f['groups']
                res = [x for x in g] + [c for x in g for c in children(x)]
                res = [x for x in res if x != '*']
                e['groups'] = res if '*' not in g else ['*']
                e['first'] = None if '*' in g else g[0]
            if 'default' in f: e['default'] = f['default'] if isinstance(f['default'], list) else [f['default']]
            for k in ('minimum', 'maximum', 'limit'):
                if k in f: e[k] = f[k]
            fs.append(e)
            off += n * size_of(f['type'])
        assert off == o['size'], (name, off, o['size'])
        structs[name] = {'size': o['size'], 'fields': fs}
gl = {}
for n, g in groups.items():
    sup = g.get('supported_engines')
    gl[n] = {'struct': g['struct'], 'version': g['version'], 'supergroup': g.get('supergroup'), 'engines': sup}

def chain(e):
    r = []
    while e is not None:
        r.append(engines[e]); e = engines[e].get('inherits')
    return r
el = {}
for n in engines:
    c = chain(n)
    m = {}
    own = ('cache_default', 'fallback')
    for k in set().union(*[set(x) for x in c]):
        if k in ('type', 'name', 'inherits', 'required_tags') or k in own: continue
        for x in c:
            if k in x: m[k] = x[k]; break
    for k in own: m[k] = engines[n].get(k, False)
    m['inherits'] = engines[n].get('inherits')
    rt = {}
    for k in ('all', 'user_interface', 'singleplayer', 'multiplayer'):
        s = set()
        for x in c: s |= set(x.get('required_tags', {}).get(k, []))
        rt[k] = sorted(s)
    m['required_tags'] = rt
    el[n] = m
json.dump({'structs': structs, 'enums': enums, 'bitfields': bitfields, 'groups': gl, 'engines': el}, open(sys.argv[2] if len(sys.argv) > 2 else 'layout.json', 'w'), sort_keys=True, separators=(',', ':'))
print(len(structs), len(enums), len(bitfields), len(gl), len(el))
