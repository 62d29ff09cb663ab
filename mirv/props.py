"""Per property: the functions whose contracts decide it, the obligations that belong
to it, and the focus and projection of its bounded differential run."""
import re

LEX = ['tokenizer::parse_float', 'tokenizer::parse_digit']
GET = ['get_token_float', 'get_token_int', 'get_token_string', 'get_on_off_from_str', 'get_opt_token_float_opt']
OBJ_LEX = LEX + ['tokenizer::obj::parse_obj']
MTL_LEX = LEX + ['tokenizer::mtl::parse_mtl']
MODEL = ['model::parse_' + x for x in (
    'vertex vertex_normal vertex_texture vertex_param face line point group mat_lib texture_lib material shadow_obj trace_obj '
    'texture_map bevel c_interp d_interp obj_name smoothing lod').split()]
MODEL_TOP = ['<model::Model as std::default::Default>::default', 'model::parse', 'load_obj']
OBJ = OBJ_LEX + GET + MODEL + MODEL_TOP
COLOUR = ['material::parse_' + x for x in 'color_type ambient diffuse specular emissive_coefficient transmission_factor'.split()]
SCALAR = ['material::parse_' + x for x in (
    'specular_exponent transparency sharpness index_of_refraction disolve illumination_model anti_alias_map').split()]
MAPS = ['material::parse_' + x for x in (
    'texture_map_ambient texture_map_diffuse texture_map_specular shininess_map disolve_map displacement_map decal').split()]
OPTION = ['material::parse_option_' + x for x in (
    'blend bm boost cc clamp texture_range offset scale turbulance texture_resolution imf_channel reflection_type').split()]
OPTIONS = ['material::parse_options'] + OPTION
NEW = ['material::%s::new' % x for x in ('ColorCorrectedMap', 'NonColorCorrectedMap', 'BumpMap', 'ReflectionMap')]
BUMP = ['material::parse_bump_map', 'material::parse_reflection_map']
SET = ['material::Material::set_from_material_element']
MTL_TOP = ['material::parse_new_material', 'material::parse_material_set', 'material::parse', 'load_mtl']
MTL_STMT = MTL_LEX + COLOUR + SCALAR + MAPS + OPTIONS + NEW + BUMP + SET + MTL_TOP + GET
MTL = MTL_STMT
ALL = list(dict.fromkeys(OBJ + MTL))

MODEL_FIELDS = ['vertices', 'normals', 'textures', 'faces', 'lines', 'points', 'groups', 'material_libs', 'texture_libs',
                'shadow_obj', 'trace_obj']


# --------------------------------------------------------------- projections
def bad(o):
    for k in ('panic', 'abort', 'hang'):
        if k in o:
            return {k: ''}
    return None


def on_model(f):
    def g(kind, o):
        return bad(o) or (f(o['ok']) if 'ok' in o else {'err': ''})
    return g


def on_mats(f):
    def g(kind, o):
        return bad(o) or ([f(m) for m in o['ok']] if 'ok' in o else {'err': ''})
    return g


def fields(*fs):
    return lambda m: {f: m[f] for f in fs}


def both(fo, fm):
    return lambda kind, o: (fo if kind == 'o' else fm)(kind, o)


def total(kind, o):
    b = bad(o)
    if b:
        return b
    if kind == 'o':
        return 'ok' if 'ok' in o else 'err'
    return 'value'


def elems(faces):
    return {g: [f['elements'] for f in fs] for g, fs in faces.items()}


def heads(m):
    """Which element is where, by the first index of each."""
    def h(x):
        e = x['elements'][:1]
        return [y['vertex_index'] if isinstance(y, dict) else y for y in e]
    return {f: {g: [h(x) for x in xs] for g, xs in m[f].items()} for f in ('faces', 'lines', 'points')}


def grouping(m):
    r = heads(m)
    r['groups'] = sorted(m['groups'])
    return r


def model_counts(m):
    r = {}
    for f in MODEL_FIELDS:
        v = m[f]
        if isinstance(v, list):
            r[f] = len(v)
        elif isinstance(v, dict) and f != 'groups':
            r[f] = {g: len(x) for g, x in v.items()}
        elif isinstance(v, dict):
            r[f] = sorted(v)
        else:
            r[f] = v is not None
    return r


def mat_counts(m):
    return sorted(k for k, v in m.items() if v is not None)


def whole(kind, o):
    return bad(o) or (o if 'ok' in o else {'err': ''})


# --------------------------------------------------------------------- table
ELEM = {'f': 3, 'l': 1.5, 'p': 1.5}
P = {}


class Prop:
    def __init__(self, id, targets, own, kinds, project, obj=None, mtl=None, **focus):
        self.id = id
        self.targets = list(dict.fromkeys(targets))
        self.own = re.compile('|'.join('(?:%s)' % x for x in own))
        self.kinds = kinds
        self.project = project
        focus['obj'] = obj
        focus['mtl'] = mtl
        self.focus = focus
        P[id] = self

    def owns(self, name, label):
        """Is this obligation, raised while verifying function `name`, one of the property's own?"""
        return self.own.search('%s :: %s' % (name, label)) is not None


def fn(*names):
    """Obligations of these functions: everything their contracts say."""
    return '^(?:%s) :: ' % '|'.join(re.escape(n) for n in names)


def step(*variants):
    return r':: model::parse/step\[(?:%s)\]/' % '|'.join(variants)


def lex(*tags, lexer='obj'):
    """The lexer's step for these tokens."""
    return r':: tokenizer::%s::parse_%s/step\[(?:%s)\]/' % (lexer, lexer, '|'.join(tags))


INT = [r'^tokenizer::parse_digit :: ', r':: tokenizer::(?:obj|mtl)::parse_(?:obj|mtl)/step\[integer\]/']
NUM = INT + [r'^tokenizer::parse_float :: ', r':: tokenizer::(?:obj|mtl)::parse_(?:obj|mtl)/step\[float\]/']


def mfield(*fs):
    return r':: (?:model::parse/(?:step\[\w*\]|result)|Model::default/value|load_obj/value)/(?:%s)$' % '|'.join(fs)


def mset(*vs):
    return r'set_from_material_element/set\[(?:%s)\]/|:: material::parse/step\[(?:%s)\]' % ('|'.join(vs), '|'.join(vs))


Prop('P01', ALL,
     [r'/no panic$', r'/progress$', r'/in-bounds$', r'/char-boundary$', r'/never fails$', r'/tag-safe$', r':: load_obj/returns Ok'],
     'om', total, space=0.25, bad=0.6)
Prop('P02', OBJ,
     [fn('model::parse_vertex', 'model::parse_vertex_normal', 'model::parse_vertex_texture', 'get_token_float', 'get_opt_token_float_opt'),
      step('Vertex', 'Normal', 'Texture'), mfield('vertices', 'normals', 'textures'),
      lex('Vertex', 'VertexNormal', 'VertexTexture')] + NUM,
     'o', on_model(fields('vertices', 'normals', 'textures')), obj={'v': 4, 'vn': 3, 'vt': 3})
Prop('P03', LEX + ['tokenizer::obj::parse_obj', 'tokenizer::mtl::parse_mtl'] + GET + MODEL,
     [fn('tokenizer::parse_float', 'tokenizer::parse_digit', 'get_token_float', 'get_token_int', 'get_opt_token_float_opt'),
      r'parse_(?:obj|mtl)/step\[(?:float|integer)\]'],
     'om', both(on_model(fields('vertices', 'normals', 'textures', 'faces', 'lines', 'points')), on_mats(lambda m: m)),
     obj={'v': 4, 'vn': 2, 'vt': 2, 'f': 1, 'l': 1, 'p': 1, 's': 0.5}, mtl={'Ka': 2, 'Ns': 3, 'Tr': 2, 'Ni': 2, 'd': 2, 'sharpness': 2, 'map_Kd': 1}, plain=0.03, other=0.02)
Prop('P04', OBJ,
     [fn('model::parse_face', 'get_token_int'), step('Face'), mfield('faces'), r':: faces of the current groups/', lex('Face', 'Slash')] + INT,
     'o', on_model(lambda m: elems(m['faces'])), obj={'f': 6, 'g': 0.8, 's': 0.5, 'v': 0.8})
Prop('P05', OBJ,
     [fn('model::parse_line', 'model::parse_point', 'get_token_int'), step('Line', 'Point'), mfield('lines', 'points'), r':: (?:lines|points) of the current groups/',
      lex('Line', 'Point', 'Slash')] + INT,
     'o', on_model(fields('lines', 'points')), obj={'l': 5, 'p': 5, 'g': 0.8, 'v': 0.8})
Prop('P06', OBJ,
     [fn('model::parse_group'), step('Group'), r':: new groups/', r':: (?:faces|lines|points) of the current groups/', mfield('current_group', 'faces', 'lines', 'points', 'groups'),
      lex('Group')],
     'o', on_model(grouping), obj={'g': 5, 'f': 3, 'l': 2, 'p': 2, 'usemtl': 0.7, 's': 0.7, 'o': 0.7})
Prop('P07', OBJ,
     [fn('model::parse_smoothing', 'get_on_off_from_str'), step('Smoothing', 'Face'), r':: faces of the current groups/', mfield('current_smoothing_group', 'faces'),
      lex('Smoothing')] + INT,
     'o', on_model(lambda m: {g: [f['smoothing_group'] for f in fs] for g, fs in m['faces'].items()}),
     obj={'s': 5, 'f': 5, 'g': 2, 'usemtl': 0.6, 'o': 0.6})
Prop('P08', OBJ,
     [fn(*['model::parse_' + x for x in 'material texture_map bevel c_interp d_interp lod'.split()]), fn('get_on_off_from_str'), r':: settings of the current groups',
      r':: new groups/', step('Material', 'TextureMap', 'Bevel', 'CInterp', 'DInterp', 'Lod', 'Group'), mfield('groups', 'current_group'),
      lex('UseMaterial', 'UseTextureMap', 'Bevel', 'CInterp', 'DInterp', 'Lod', 'Group')] + INT,
     'o', on_model(fields('groups')), obj={'g': 5, 'usemtl': 2, 'usemap': 2, 'bevel': 1.5, 'c_interp': 1.5, 'd_interp': 1.5, 'lod': 2, 'f': 0.8, 'o': 0.4})
Prop('P09', OBJ,
     [fn(*['model::parse_' + x for x in 'mat_lib texture_lib shadow_obj trace_obj obj_name vertex_param'.split()]),
      step('MaterialLib', 'TextureLib', 'ShadowObj', 'TraceObj', 'ObjName', 'VertexParam'), mfield('material_libs', 'texture_libs', 'shadow_obj', 'trace_obj'),
      lex('MaterialLib', 'TextureMapLib', 'ShadowObj', 'TraceObj', 'Object', 'VertexParam')],
     'o', on_model(fields('material_libs', 'texture_libs', 'shadow_obj', 'trace_obj')),
     obj={'mtllib': 4, 'maplib': 4, 'shadow_obj': 2.5, 'trace_obj': 2.5, 'o': 2, 'vp': 2})
Prop('P10', OBJ,
     [fn('tokenizer::obj::parse_obj', 'load_obj', 'get_token_string')],
     'o', whole, space=0.4, case=0.4, comment=0.25, bad=0.15)
Prop('P11', MTL_LEX + MTL_TOP + GET,
     [fn('tokenizer::mtl::parse_mtl', 'load_mtl', 'get_token_string')],
     'm', whole, space=0.4, case=0.4, comment=0.25, bad=0.15)
Prop('P12', MTL_STMT,
     [fn('material::parse_new_material', 'material::parse_material_set', 'load_mtl'), r':: material statements/', r':: material::parse/(?!step)', r':: material::parse/step\[Name\]', lex('NewMaterial', lexer='mtl')],
     'm', on_mats(lambda m: m['name']), mtl={'newmtl': 12}, bad=0.15, other=0.6)
Prop('P13', MTL_STMT,
     [fn('material::Material::set_from_material_element', 'material::parse', 'material::parse_material_set'), r':: material statements/'],
     'm', whole, mtl={'newmtl': 8}, other=1.6)
Prop('P14', MTL_STMT,
     [fn(*COLOUR), mset('Ambient', 'Diffuse', 'Specular', 'EmissiveCoefficient', 'TransmissionFactor'),
      lex('AmbientColor', 'DiffuseColor', 'SpecularColor', 'EmissiveCoefficient', 'TransmissionFactor', 'Xyz', 'Spectral', lexer='mtl')] + NUM,
     'm', on_mats(fields('ambient', 'diffuse', 'specular', 'emissive_coefficient', 'transmission_factor')),
     mtl={'Ka': 3, 'Kd': 3, 'Ks': 3, 'Ke': 3, 'Tf': 3, 'newmtl': 1})
Prop('P15', MTL_STMT,
     [fn(*SCALAR), fn('get_on_off_from_str'), mset('SpecularExponent', 'Transparency', 'Sharpness', 'IndexOfRefraction', 'Disolve', 'IlluminationModel', 'AntiAliasMap'),
      lex('SpecularExponent', 'Transparancy', 'Sharpness', 'IndexOfRefraction', 'Disolved', 'Halo', 'IlluminationModel', 'AntiAliasMap', lexer='mtl')] + NUM,
     'm', on_mats(fields('specular_exponent', 'transparancy', 'sharpness', 'index_of_refraction', 'disolve', 'illumination_mode', 'anti_alias_map')),
     mtl={'Ns': 3, 'Tr': 3, 'sharpness': 3, 'Ni': 3, 'd': 5, 'illum': 3, 'map_aat': 3, 'newmtl': 1})
Prop('P16', MTL_STMT,
     [fn(*MAPS), fn(*OPTIONS), fn(*NEW[:2]), fn('get_on_off_from_str', 'get_opt_token_float_opt'), r':: options/',
      mset('TexMapAmbient', 'TexMapDiffuse', 'TexMapSpecular', 'ShininessMap', 'DisolveMap', 'DisplacementMap', 'Decal'),
      lex(r'TextureMap\w+', 'DisplacementMap', 'Decal', r'Option(?!BumpMultiplier)\w+', lexer='mtl')] + NUM,
     'm', on_mats(fields('texture_map_ambient', 'texture_map_diffuse', 'texture_map_specular', 'shininess_map', 'disolve_map', 'displacement_map', 'decal')),
     mtl={'map_Ka': 3, 'map_Kd': 3, 'map_Ks': 3, 'map_Ns': 3, 'map_d': 3, 'map_disp': 2, 'disp': 3, 'decal': 3, 'newmtl': 1})
Prop('P17', MTL_STMT,
     [fn(*BUMP), fn(*NEW), fn(*OPTIONS), r':: (?:options|bump multiplier|reflection type)/', mset('BumpMap', 'ReflectionMap'),
      lex('BumpMap', 'ReflectionMap', 'ReflectionType', r'Option\w+', lexer='mtl')] + NUM,
     'm', on_mats(fields('bump_map', 'reflection_map')), mtl={'bump': 6, 'refl': 6, 'newmtl': 1})
Prop('P18', ALL,
     [r'/(?:accepts|rest|position|progress|continues-only-when-specified|reads to the end of the text|never fails|returns Ok|result)(?:$|/)',
      r'unparsed remainder is reported$'],
     'om', both(on_model(model_counts), on_mats(mat_counts)), bad=0.12)
