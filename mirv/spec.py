"""The specifications: what every function of the crate that a property depends
on has to compute.  Each one is written once against an environment `e` and used
three ways: as the contract a function body is verified against (SymEnv, verify),
as the contract a caller sees (SymEnv, call) and as the executable oracle of the
bounded differential runs (ConcEnv)."""

NUM = ('Float', 'Int')
STR = ('String',)
INT = ('Int',)

WS = (frozenset(b' \t\r\n'), False)
DIG = (frozenset(b'0123456789'), False)
NOT_EOL = (frozenset(range(128)) - frozenset(b'\r\n'), True)
NOT_EOL_SP = (frozenset(range(128)) - frozenset(b' \r\n'), True)

PARSERS = {}     # parser functions over tokens / text: spec(e, p) -> None | (p', value)


class Some:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Some(%r)' % (self.v,)


def parser(name, level='token'):
    def deco(f):
        PARSERS[name] = (f, level)
        return f
    return deco


def seq(e, p, *pats):
    for t in pats:
        if not e.tok(p, *t):
            return None
        p = p + 1
    return p


# ------------------------------------------------------------------ model.rs
@parser('model::parse_vertex')
def vertex(e, p):
    if seq(e, p, ('Vertex',), NUM, NUM, NUM) is None:
        return None
    w = e.tok(p + 4, *NUM)
    return (p + 5 if w else p + 4), e.mk('model::Vertex', x=e.num(p + 1), y=e.num(p + 2), z=e.num(p + 3),
                                         w=Some(e.num(p + 4)) if w else None)


@parser('model::parse_vertex_normal')
def normal(e, p):
    if seq(e, p, ('VertexNormal',), NUM, NUM, NUM) is None:
        return None
    return p + 4, e.mk('model::Normal', x=e.num(p + 1), y=e.num(p + 2), z=e.num(p + 3))


@parser('model::parse_vertex_texture')
def texture(e, p):
    if seq(e, p, ('VertexTexture',), NUM) is None:
        return None
    v = w = None
    n = p + 2
    if e.tok(n, *NUM):
        v = Some(e.num(n))
        n = n + 1
        if e.tok(n, *NUM):
            w = Some(e.num(n))
            n = n + 1
    return n, e.mk('model::Texture', u=e.num(p + 1), v=v, w=w)


@parser('model::parse_vertex_param')
def vparam(e, p):
    if seq(e, p, ('VertexParam',), NUM) is None:
        return None
    n = p + 2
    if e.tok(n, *NUM):
        n = n + 1
        if e.tok(n, *NUM):
            n = n + 1
    return n, e.mkv('model::ModelElement', 'VertexParam')


def slash_int(e, p):
    """[ '/' [ int ] ] -> (position, index or None)"""
    if not e.tok(p, 'Slash'):
        return p, None
    if e.tok(p + 1, *INT):
        return p + 2, Some(e.int(p + 1))
    return p + 1, None


def face_elem(e, p):
    if not e.tok(p, *INT):
        return None
    q, t = slash_int(e, p + 1)
    q, n = slash_int(e, q)
    return q, e.mk('model::FaceElement', vertex_index=e.int(p), texture_index=t, normal_index=n)


def line_elem(e, p):
    if not e.tok(p, *INT):
        return None
    q, t = slash_int(e, p + 1)
    return q, e.mk('model::LineElement', vertex_index=e.int(p), texture_index=t)


def point_elem(e, p):
    if not e.tok(p, *INT):
        return None
    return p + 1, e.int(p)


def name_elem(e, p):
    if not e.tok(p, *STR):
        return None
    return p + 1, e.str(p)


@parser('model::parse_face')
def face(e, p):
    if not e.tok(p, 'Face'):
        return None
    wrap = (lambda s: e.mk('model::Face', elements=s, smoothing_group=0), lambda v: e.get(v, 'elements'))
    return e.collect('face elements', p + 1, face_elem, 'model::FaceElement', wrap=wrap)


@parser('model::parse_line')
def line(e, p):
    if not e.tok(p, 'Line'):
        return None
    wrap = (lambda s: e.mk('model::Line', elements=s), lambda v: e.get(v, 'elements'))
    return e.collect('line elements', p + 1, line_elem, 'model::LineElement', wrap=wrap)


@parser('model::parse_point')
def point(e, p):
    if not e.tok(p, 'Point'):
        return None
    wrap = (lambda s: e.mk('model::Point', elements=s), lambda v: e.get(v, 'elements'))
    return e.collect('point elements', p + 1, point_elem, 'i32', wrap=wrap)


def names_stmt(fn, kw, variant):
    @parser('model::' + fn)
    def stmt(e, p):
        if not e.tok(p, kw):
            return None
        return e.collect(variant + ' names', p + 1, name_elem, 'String',
                         final=lambda s: e.mkv('model::ModelElement', variant, s))
    return stmt


def name_stmt(fn, kw, variant):
    @parser('model::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), STR) is None:
            return None
        return p + 2, e.mkv('model::ModelElement', variant, e.str(p + 1))
    return stmt


def flag_stmt(fn, kw, variant):
    @parser('model::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), STR) is None:
            return None
        return p + 2, e.mkv('model::ModelElement', variant, e.onoff(p + 1))
    return stmt


names_stmt('parse_group', 'Group', 'Group')
names_stmt('parse_mat_lib', 'MaterialLib', 'MaterialLib')
names_stmt('parse_texture_lib', 'TextureMapLib', 'TextureLib')
name_stmt('parse_material', 'UseMaterial', 'Material')
name_stmt('parse_shadow_obj', 'ShadowObj', 'ShadowObj')
name_stmt('parse_trace_obj', 'TraceObj', 'TraceObj')
name_stmt('parse_texture_map', 'UseTextureMap', 'TextureMap')
flag_stmt('parse_bevel', 'Bevel', 'Bevel')
flag_stmt('parse_c_interp', 'CInterp', 'CInterp')
flag_stmt('parse_d_interp', 'DInterp', 'DInterp')


@parser('model::parse_obj_name')
def obj_name(e, p):
    if seq(e, p, ('Object',), ('String', 'Int')) is None:
        return None
    return p + 2, e.mkv('model::ModelElement', 'ObjName', e.textual(p + 1))


@parser('model::parse_smoothing')
def smoothing(e, p):
    if not e.tok(p, 'Smoothing'):
        return None
    if e.tok(p + 1, *INT):
        v = e.int(p + 1)
    elif e.tok(p + 1, *STR):
        v = 1 if e.br(e.onoff(p + 1)) else 0
    else:
        return None
    return p + 2, e.mkv('model::ModelElement', 'Smoothing', v)


@parser('model::parse_lod')
def lod(e, p):
    if seq(e, p, ('Lod',), INT) is None:
        return None
    return p + 2, e.mkv('model::ModelElement', 'Lod', e.int(p + 1))


MODEL_STMTS = [
    ('model::parse_vertex', 'Vertex'), ('model::parse_vertex_normal', 'Normal'),
    ('model::parse_vertex_texture', 'Texture'), ('model::parse_face', 'Face'),
    ('model::parse_line', 'Line'), ('model::parse_point', 'Point'),
    ('model::parse_mat_lib', None), ('model::parse_material', None), ('model::parse_obj_name', None),
    ('model::parse_smoothing', None), ('model::parse_bevel', None), ('model::parse_c_interp', None),
    ('model::parse_d_interp', None), ('model::parse_lod', None), ('model::parse_shadow_obj', None),
    ('model::parse_trace_obj', None), ('model::parse_texture_lib', None), ('model::parse_texture_map', None),
    ('model::parse_group', None), ('model::parse_vertex_param', None),
]

# which tokens can start a statement, and the statement that handles it
MODEL_FIRST = {
    'Vertex': 0, 'VertexNormal': 1, 'VertexTexture': 2, 'Face': 3, 'Line': 4, 'Point': 5, 'MaterialLib': 6,
    'UseMaterial': 7, 'Object': 8, 'Smoothing': 9, 'Bevel': 10, 'CInterp': 11, 'DInterp': 12, 'Lod': 13,
    'ShadowObj': 14, 'TraceObj': 15, 'TextureMapLib': 16, 'UseTextureMap': 17, 'Group': 18, 'VertexParam': 19,
}


def model_stmt(e, p):
    """One statement -> None | (position, element variant, payload)."""
    for tok, i in MODEL_FIRST.items():
        if e.tok(p, tok):
            fn, variant = MODEL_STMTS[i]
            r = e.sub(fn, p)
            if r is None:
                return None
            if variant is None:
                return r
            return r[0], e.mkv('model::ModelElement', variant, r[1])
    return None


def default_group(e):
    return e.mk('model::Group', material_name=e.s(''), bevel=False, c_interp=False, d_interp=False, lod=0, texture_map=None)


def model_default(e):
    return e.mk('model::Model',
                vertices=e.items(), normals=e.items(), textures=e.items(),
                faces=e.empty_map(), lines=e.empty_map(), points=e.empty_map(),
                groups=e.mput(e.empty_map(), e.s('default'), default_group(e)),
                material_libs=e.items(), texture_libs=e.items(), shadow_obj=None, trace_obj=None,
                current_group=e.items(e.s('default')), current_smoothing_group=0)


def add_to_groups(e, m, fld, x):
    """Append x to the list of every current group."""
    def step(acc, g):
        cur = e.mget(acc, g)
        return e.mput(acc, g, e.push(e.items() if cur is None else cur, x))
    return e.setf(m, **{fld: e.each(fld + ' of the current groups', e.get(m, 'current_group'), e.get(m, fld), step)})


def set_in_groups(e, m, **kw):
    """Set a field in the settings of every current group."""
    def step(acc, g):
        cur = e.mget(acc, g)
        if cur is None:
            cur = default_group(e)
        return e.mput(acc, g, e.setf(cur, **kw))
    return e.setf(m, groups=e.each('settings of the current groups: %s' % ','.join(kw), e.get(m, 'current_group'), e.get(m, 'groups'), step))


def model_apply(e, m, el):
    v = e.variant(el)
    x = e.payload(el)
    if v == 'Vertex':
        return e.setf(m, vertices=e.push(e.get(m, 'vertices'), x))
    if v == 'Normal':
        return e.setf(m, normals=e.push(e.get(m, 'normals'), x))
    if v == 'Texture':
        return e.setf(m, textures=e.push(e.get(m, 'textures'), x))
    if v == 'Face':
        return add_to_groups(e, m, 'faces', e.setf(x, smoothing_group=e.get(m, 'current_smoothing_group')))
    if v == 'Line':
        return add_to_groups(e, m, 'lines', x)
    if v == 'Point':
        return add_to_groups(e, m, 'points', x)
    if v == 'Group':
        def step(acc, g):
            return acc if e.mget(acc, g) is not None else e.mput(acc, g, default_group(e))
        return e.setf(m, groups=e.each('new groups', x, e.get(m, 'groups'), step), current_group=x)
    if v == 'MaterialLib':
        return e.setf(m, material_libs=e.cat(e.get(m, 'material_libs'), x))
    if v == 'TextureLib':
        return e.setf(m, texture_libs=e.cat(e.get(m, 'texture_libs'), x))
    if v == 'Material':
        return set_in_groups(e, m, material_name=x)
    if v == 'Smoothing':
        return e.setf(m, current_smoothing_group=x)
    if v == 'Bevel':
        return set_in_groups(e, m, bevel=x)
    if v == 'CInterp':
        return set_in_groups(e, m, c_interp=x)
    if v == 'DInterp':
        return set_in_groups(e, m, d_interp=x)
    if v == 'Lod':
        return set_in_groups(e, m, lod=e.clamp(x, 0, 100))
    if v == 'ShadowObj':
        return e.setf(m, shadow_obj=Some(x))
    if v == 'TraceObj':
        return e.setf(m, trace_obj=Some(x))
    if v == 'TextureMap':
        return set_in_groups(e, m, texture_map=Some(x))
    if v in ('ObjName', 'VertexParam'):
        return m
    raise e.Error('model element %s' % v)


def model_step(e, p, m):
    r = model_stmt(e, p)
    if r is None:
        return ('stop',)
    return ('next', r[0], model_apply(e, m, r[1]), e.variant(r[1]))


# --------------------------------------------------------------- material.rs
def color_stmt(fn, kw, variant):
    @parser('material::' + fn)
    def stmt(e, p):
        if not e.tok(p, kw):
            return None
        r = e.sub('material::parse_color_type', p + 1)
        if r is None:
            return None
        return r[0], e.mkv('material::MaterialElement', variant, r[1])
    return stmt


def num_stmt(fn, kw, variant):
    @parser('material::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), NUM) is None:
            return None
        return p + 2, e.mkv('material::MaterialElement', variant, e.num(p + 1))
    return stmt


def map_stmt(fn, kw, variant, ty):
    @parser('material::' + fn)
    def stmt(e, p):
        if not e.tok(p, kw):
            return None
        r = e.sub('material::parse_options', p + 1)
        if r is None:
            return None
        return r[0], e.mkv('material::MaterialElement', variant, e.fn('material::%s::new' % ty, r[1]))
    return stmt


@parser('material::parse_color_type')
def color_type(e, p):
    T = 'material::ColorType'
    if e.tok(p, 'Spectral'):
        if not e.tok(p + 1, *STR):
            return None
        if e.tok(p + 2, *NUM):
            return p + 3, e.mkv(T, 'Spectral', e.str(p + 1), e.num(p + 2))
        return p + 2, e.mkv(T, 'Spectral', e.str(p + 1), e.f32(1.0))
    if e.tok(p, 'Xyz'):
        if not e.tok(p + 1, *NUM):
            return None
        x = e.num(p + 1)
        y = z = x
        n = p + 2
        if e.tok(n, *NUM):
            y = e.num(n)
            n = n + 1
            if e.tok(n, *NUM):
                z = e.num(n)
                n = n + 1
        return n, e.mkv(T, 'CieXyz', x, y, z)
    if seq(e, p, NUM, NUM, NUM) is None:
        return None
    return p + 3, e.mkv(T, 'Rgb', e.num(p), e.num(p + 1), e.num(p + 2))


@parser('material::parse_new_material')
def new_material(e, p):
    if seq(e, p, ('NewMaterial',), STR) is None:
        return None
    return p + 2, e.mkv('material::MaterialElement', 'Name', e.str(p + 1))


color_stmt('parse_ambient', 'AmbientColor', 'Ambient')
color_stmt('parse_diffuse', 'DiffuseColor', 'Diffuse')
color_stmt('parse_specular', 'SpecularColor', 'Specular')
color_stmt('parse_emissive_coefficient', 'EmissiveCoefficient', 'EmissiveCoefficient')
color_stmt('parse_transmission_factor', 'TransmissionFactor', 'TransmissionFactor')
num_stmt('parse_specular_exponent', 'SpecularExponent', 'SpecularExponent')
num_stmt('parse_transparency', 'Transparancy', 'Transparency')
num_stmt('parse_sharpness', 'Sharpness', 'Sharpness')
num_stmt('parse_index_of_refraction', 'IndexOfRefraction', 'IndexOfRefraction')
CC, NCC = 'ColorCorrectedMap', 'NonColorCorrectedMap'
map_stmt('parse_texture_map_ambient', 'TextureMapAmbient', 'TexMapAmbient', CC)
map_stmt('parse_texture_map_diffuse', 'TextureMapDiffuse', 'TexMapDiffuse', CC)
map_stmt('parse_texture_map_specular', 'TextureMapSpecular', 'TexMapSpecular', CC)
map_stmt('parse_shininess_map', 'TextureMapShininess', 'ShininessMap', NCC)
map_stmt('parse_disolve_map', 'TextureMapDisolved', 'DisolveMap', NCC)
map_stmt('parse_displacement_map', 'DisplacementMap', 'DisplacementMap', NCC)
map_stmt('parse_decal', 'Decal', 'Decal', NCC)
map_stmt('parse_bump_map', 'BumpMap', 'BumpMap', 'BumpMap')
map_stmt('parse_reflection_map', 'ReflectionMap', 'ReflectionMap', 'ReflectionMap')


@parser('material::parse_disolve')
def disolve(e, p):
    if not e.tok(p, 'Disolved'):
        return None
    T = 'material::DisolveType'
    if e.tok(p + 1, 'Halo'):
        if not e.tok(p + 2, *NUM):
            return None
        n, v = p + 3, e.mkv(T, 'Halo', e.num(p + 2))
    elif e.tok(p + 1, *NUM):
        n, v = p + 2, e.mkv(T, 'Alpha', e.num(p + 1))
    else:
        return None
    return n, e.mkv('material::MaterialElement', 'Disolve', v)


@parser('material::parse_illumination_model')
def illum(e, p):
    if seq(e, p, ('IlluminationModel',), INT) is None:
        return None
    return p + 2, e.mkv('material::MaterialElement', 'IlluminationModel', e.as_u32(e.int(p + 1)))


@parser('material::parse_anti_alias_map')
def aat(e, p):
    if seq(e, p, ('AntiAliasMap',), STR) is None:
        return None
    return p + 2, e.mkv('material::MaterialElement', 'AntiAliasMap', e.onoff(p + 1))


OE = 'material::OptionElement'


@parser('material::parse_option_blend')
def opt_blend(e, p):
    for kw, v in (('OptionBlendU', 'BlendU'), ('OptionBlendV', 'BlendV')):
        if e.tok(p, kw):
            if not e.tok(p + 1, *STR):
                return None
            return p + 2, e.mkv(OE, v, e.onoff(p + 1))
    return None


def opt_flag(fn, kw, variant):
    @parser('material::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), STR) is None:
            return None
        return p + 2, e.mkv(OE, variant, e.onoff(p + 1))
    return stmt


def opt_str(fn, kw, variant):
    @parser('material::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), STR) is None:
            return None
        return p + 2, e.mkv(OE, variant, e.str(p + 1))
    return stmt


def opt_vec(fn, kw, variant):
    @parser('material::' + fn)
    def stmt(e, p):
        if seq(e, p, (kw,), NUM) is None:
            return None
        y = z = None
        n = p + 2
        if e.tok(n, *NUM):
            y = Some(e.num(n))
            n = n + 1
            if e.tok(n, *NUM):
                z = Some(e.num(n))
                n = n + 1
        return n, e.mkv(OE, variant, (e.num(p + 1), y, z))
    return stmt


@parser('material::parse_option_bm')
def opt_bm(e, p):
    if seq(e, p, ('OptionBumpMultiplier',), NUM) is None:
        return None
    return p + 2, e.mkv(OE, 'BumpMultiplier', e.num(p + 1))


@parser('material::parse_option_boost')
def opt_boost(e, p):
    if seq(e, p, ('OptionBoost',), NUM) is None:
        return None
    return p + 2, e.mkv(OE, 'Boost')


@parser('material::parse_option_texture_range')
def opt_range(e, p):
    if seq(e, p, ('OptionRange',), NUM, NUM) is None:
        return None
    return p + 3, e.mkv(OE, 'TextureRange', (e.num(p + 1), e.num(p + 2)))


@parser('material::parse_option_texture_resolution')
def opt_texres(e, p):
    if seq(e, p, ('OptionTextureResolution',), INT) is None:
        return None
    return p + 2, e.mkv(OE, 'TextureRes', e.int(p + 1))


opt_flag('parse_option_cc', 'OptionColorCorrect', 'Cc')
opt_flag('parse_option_clamp', 'OptionClamp', 'Clamp')
opt_str('parse_option_imf_channel', 'OptionIMFChan', 'ImfChan')
opt_str('parse_option_reflection_type', 'ReflectionType', 'ReflectionType')
opt_vec('parse_option_offset', 'OptionOffset', 'Offset')
opt_vec('parse_option_scale', 'OptionScale', 'Scale')
opt_vec('parse_option_turbulance', 'OptionTurbulence', 'Turbulance')

OPTION_FIRST = {
    'OptionBlendU': 'parse_option_blend', 'OptionBlendV': 'parse_option_blend',
    'OptionBumpMultiplier': 'parse_option_bm', 'OptionBoost': 'parse_option_boost',
    'OptionColorCorrect': 'parse_option_cc', 'OptionClamp': 'parse_option_clamp',
    'OptionRange': 'parse_option_texture_range', 'OptionOffset': 'parse_option_offset',
    'OptionScale': 'parse_option_scale', 'OptionTurbulence': 'parse_option_turbulance',
    'OptionTextureResolution': 'parse_option_texture_resolution', 'OptionIMFChan': 'parse_option_imf_channel',
    'ReflectionType': 'parse_option_reflection_type',
}


# What callers see of the parsers below: the tokens they start at and the type of their value.
OPAQUE = {'material::parse_color_type': ((), 'material::ColorType')}
for _t, _f in OPTION_FIRST.items():
    OPAQUE['material::' + _f] = (OPAQUE.get('material::' + _f, ((),))[0] + (_t,), OE)


# ... and those whose value is a list with at least one element
OPAQUE_LIST = {'material::parse_options': OE, 'material::parse_material_set': 'material::MaterialElement'}


def option_elem(e, p):
    for tok, fn in OPTION_FIRST.items():
        if e.tok(p, tok):
            return e.sub('material::' + fn, p)
    if e.tok(p, *STR):
        return p + 1, e.mkv(OE, 'FileName', e.str(p))
    return None


@parser('material::parse_options')
def options(e, p):
    return e.collect('options', p, option_elem, OE)


MATERIAL_FIRST = {
    'NewMaterial': 'parse_new_material', 'AmbientColor': 'parse_ambient', 'DiffuseColor': 'parse_diffuse',
    'SpecularColor': 'parse_specular', 'EmissiveCoefficient': 'parse_emissive_coefficient',
    'SpecularExponent': 'parse_specular_exponent', 'Disolved': 'parse_disolve', 'Transparancy': 'parse_transparency',
    'TransmissionFactor': 'parse_transmission_factor', 'Sharpness': 'parse_sharpness',
    'IndexOfRefraction': 'parse_index_of_refraction', 'IlluminationModel': 'parse_illumination_model',
    'TextureMapAmbient': 'parse_texture_map_ambient', 'TextureMapDiffuse': 'parse_texture_map_diffuse',
    'TextureMapSpecular': 'parse_texture_map_specular', 'TextureMapShininess': 'parse_shininess_map',
    'TextureMapDisolved': 'parse_disolve_map', 'DisplacementMap': 'parse_displacement_map', 'Decal': 'parse_decal',
    'BumpMap': 'parse_bump_map', 'ReflectionMap': 'parse_reflection_map', 'AntiAliasMap': 'parse_anti_alias_map',
}


for _t, _f in MATERIAL_FIRST.items():
    OPAQUE['material::' + _f] = ((_t,), 'material::MaterialElement')


def material_stmt(e, p):
    for tok, fn in MATERIAL_FIRST.items():
        if e.tok(p, tok):
            return e.sub('material::' + fn, p)
    return None


@parser('material::parse_material_set')
def material_set(e, p):
    return e.collect('material statements', p, material_stmt, 'material::MaterialElement')


MATERIAL_FIELD = {
    'Ambient': 'ambient', 'Diffuse': 'diffuse', 'Specular': 'specular', 'EmissiveCoefficient': 'emissive_coefficient',
    'SpecularExponent': 'specular_exponent', 'Disolve': 'disolve', 'Transparency': 'transparancy',
    'TransmissionFactor': 'transmission_factor', 'Sharpness': 'sharpness', 'IndexOfRefraction': 'index_of_refraction',
    'IlluminationModel': 'illumination_mode', 'TexMapAmbient': 'texture_map_ambient',
    'TexMapDiffuse': 'texture_map_diffuse', 'TexMapSpecular': 'texture_map_specular', 'ShininessMap': 'shininess_map',
    'DisolveMap': 'disolve_map', 'DisplacementMap': 'displacement_map', 'Decal': 'decal', 'BumpMap': 'bump_map',
    'ReflectionMap': 'reflection_map', 'AntiAliasMap': 'anti_alias_map',
}


def default_material(e, name):
    return e.mk('material::Material', name=name, **{f: None for f in MATERIAL_FIELD.values()})


def material_set_elem(e, m, el):
    v = e.variant(el)
    x = e.payload(el)
    if v == 'Name':
        return e.setf(m, name=x)
    return e.setf(m, **{MATERIAL_FIELD[v]: Some(x)})


def material_step(e, acc, el):
    """One material statement applied to the materials so far."""
    v = e.variant(el)
    if v == 'Name':
        return ('next', e.push(acc, default_material(e, e.payload(el))), 'Name')
    if e.is_empty(acc):
        return ('ret', 'NewMaterial')
    return ('next', e.set_last(acc, material_set_elem(e, e.last(acc), el)), v)


OPT_FIELDS = {
    'BlendU': 'blend_u', 'BlendV': 'blend_v', 'Cc': 'color_correct', 'Clamp': 'clamp', 'TextureRange': 'texture_range',
    'Offset': 'offset', 'Scale': 'scale', 'Turbulance': 'turbulance', 'TextureRes': 'texture_res', 'ImfChan': 'imf_chan',
}
CC_FIELDS = ('BlendU', 'BlendV', 'Cc', 'Clamp', 'TextureRange', 'Offset', 'Scale', 'Turbulance', 'TextureRes')
NCC_FIELDS = ('BlendU', 'BlendV', 'Clamp', 'ImfChan', 'TextureRange', 'Offset', 'Scale', 'Turbulance', 'TextureRes')


def map_default(e, ty, fields):
    return e.mk('material::' + ty, file_name=e.s(''), **{OPT_FIELDS[f]: None for f in fields})


def map_step(e, m, el, fields):
    v = e.variant(el)
    if v == 'FileName':
        return e.setf(m, file_name=e.payload(el)), v
    if v in fields:
        return e.setf(m, **{OPT_FIELDS[v]: Some(e.payload(el))}), v
    return m, v


def cc_new(e, opts):
    return e.each_tag('options', opts, map_default(e, CC, CC_FIELDS), lambda m, el: map_step(e, m, el, CC_FIELDS))


def ncc_new(e, opts):
    return e.each_tag('options', opts, map_default(e, NCC, NCC_FIELDS), lambda m, el: map_step(e, m, el, NCC_FIELDS))


def bump_new(e, opts):
    bm = e.first('bump multiplier', opts, lambda el: e.is_v(el, 'BumpMultiplier'), lambda el: e.pay(el, 'BumpMultiplier'))
    return e.mk('material::BumpMap', bump_multiplier=bm, map_settings=Some(e.fn('material::%s::new' % NCC, opts)))


def refl_new(e, opts):
    ty = e.first('reflection type', opts, lambda el: e.is_v(el, 'ReflectionType'), lambda el: e.pay(el, 'ReflectionType'))
    return e.mk('material::ReflectionMap', reflection_type=e.unwrap_or(ty, e.s('')),
                map_settings=Some(e.fn('material::%s::new' % CC, opts)))


FNS = {
    'material::ColorCorrectedMap::new': (cc_new, 'material::ColorCorrectedMap'),
    'material::NonColorCorrectedMap::new': (ncc_new, 'material::NonColorCorrectedMap'),
    'material::BumpMap::new': (bump_new, 'material::BumpMap'),
    'material::ReflectionMap::new': (refl_new, 'material::ReflectionMap'),
}


# ---------------------------------------------------------------- tokenizers
def sign(e, p):
    if e.at(p, '+'):
        return p + 1, False
    if e.at(p, '-'):
        return p + 1, True
    return p, False


def exponent(e, p):
    """e[+-]digits -> None | (position, sign, digits start)"""
    if not (e.at(p, 'e') or e.at(p, 'E')):
        return None
    q, neg = sign(e, p + 1)
    r = e.span(DIG, q)
    if not e.lt(q, r):
        return None
    return r, (-1 if neg else 1), q


@parser('tokenizer::parse_float', 'text')
def float_lit(e, p):
    """[+-] digits [. digits] [e [+-] digits], with a point or an exponent."""
    q, neg = sign(e, p)
    d = e.span(DIG, q)
    dot = e.at(d, '.')
    ip = (q, d) if e.lt(q, d) else None
    fp = None
    end = d
    if dot:
        end = e.span(DIG, d + 1)
        fp = (d + 1, end) if e.lt(d + 1, end) else None
    elif ip is None:
        return None
    x = exponent(e, end)
    if x is None and not dot:
        return None
    if x is not None:
        end = x[0]
    if ip is None and fp is None:
        v = e.f32(0.0)
    else:
        v = e.dec(ip, fp, 0 if x is None else x[1], None if x is None else (x[2], x[0]))
    return end, e.mkv('tokenizer::Token', 'Float', e.neg(v) if neg else v)


@parser('tokenizer::parse_digit', 'text')
def int_lit(e, p):
    q, neg = sign(e, p)
    d = e.span(DIG, q)
    if not e.lt(q, d):
        return None
    v = e.intval(q, d, neg)
    if e.is_i32(v):
        return d, e.mkv('tokenizer::Token', 'Int', v)
    x = e.dec((q, d), None, 0, None)
    return d, e.mkv('tokenizer::Token', 'Float', e.neg(x) if neg else x)


OBJ_KEYWORDS = [
    ('mtllib', 'MaterialLib'), ('usemtl', 'UseMaterial'), ('bevel', 'Bevel'), ('c_interp', 'CInterp'),
    ('d_interp', 'DInterp'), ('lod', 'Lod'), ('shadow_obj', 'ShadowObj'), ('trace_obj', 'TraceObj'),
    ('maplib', 'TextureMapLib'), ('usemap', 'UseTextureMap'), ('vt', 'VertexTexture'), ('vn', 'VertexNormal'),
    ('vp', 'VertexParam'), ('v', 'Vertex'), ('f', 'Face'), ('l', 'Line'), ('p', 'Point'), ('o', 'Object'),
    ('g', 'Group'), ('s', 'Smoothing'),
]

MTL_KEYWORDS = [
    ('newmtl', 'NewMaterial'), ('spectral', 'Spectral'), ('xyz', 'Xyz'), ('sharpness', 'Sharpness'),
    ('illum', 'IlluminationModel'), ('map_disp', 'DisplacementMap'), ('map_ka', 'TextureMapAmbient'),
    ('map_kd', 'TextureMapDiffuse'), ('map_ks', 'TextureMapSpecular'), ('map_ns', 'TextureMapShininess'),
    ('map_aat', 'AntiAliasMap'), ('map_d', 'TextureMapDisolved'), ('disp', 'DisplacementMap'), ('decal', 'Decal'),
    ('bump', 'BumpMap'), ('refl', 'ReflectionMap'), ('-halo', 'Halo'), ('-type', 'ReflectionType'),
    ('-texres', 'OptionTextureResolution'), ('-blendu', 'OptionBlendU'), ('-blendv', 'OptionBlendV'),
    ('-boost', 'OptionBoost'), ('-clamp', 'OptionClamp'), ('-imfchan', 'OptionIMFChan'),
    ('-bm', 'OptionBumpMultiplier'), ('-cc', 'OptionColorCorrect'), ('-mm', 'OptionRange'), ('-o', 'OptionOffset'),
    ('-s', 'OptionScale'), ('-t', 'OptionTurbulence'), ('ka', 'AmbientColor'), ('kd', 'DiffuseColor'),
    ('ks', 'SpecularColor'), ('ke', 'EmissiveCoefficient'), ('ns', 'SpecularExponent'), ('tr', 'Transparancy'),
    ('tf', 'TransmissionFactor'), ('ni', 'IndexOfRefraction'), ('d', 'Disolved'),
]


def lex_step(e, p, acc, keywords, slash, word):
    """One lexeme: whitespace and comments produce nothing; a keyword counts
    only when whitespace follows it."""
    if e.at_end(p):
        return ('stop',)
    T = 'tokenizer::Token'
    q = e.span(WS, p)
    for w, t in keywords:
        # a keyword counts only as a whole word: whitespace has to follow it
        if e.kw_ws(q, w):
            return ('next', e.span(WS, q + len(w)), e.push(acc, e.mkv(T, t)), t)
    if e.lt(p, q):
        return ('next', q, acc, 'whitespace')
    if slash and e.at(p, '/'):
        return ('next', p + 1, e.push(acc, e.mkv(T, 'Slash')), 'Slash')
    r = e.sub('tokenizer::parse_float', p)
    if r is not None:
        return ('next', r[0], e.push(acc, r[1]), 'float')
    r = e.sub('tokenizer::parse_digit', p)
    if r is not None:
        return ('next', r[0], e.push(acc, r[1]), 'integer')
    if e.at(p, '#'):
        return ('next', e.span(NOT_EOL, p + 1), acc, 'comment')
    r = e.span(word, p)
    return ('next', r, e.push(acc, e.mkv(T, 'String', e.text(p, r))), 'text')


def lex_obj(e, p, acc):
    return lex_step(e, p, acc, OBJ_KEYWORDS, True, NOT_EOL)


def lex_mtl(e, p, acc):
    return lex_step(e, p, acc, MTL_KEYWORDS, False, NOT_EOL_SP)
