"""Writes /verif/properties.jsonl."""
import json, os
INP = lambda t: dict(over=['inputs'], text=t)
HIST = lambda t: dict(over=['inputs', 'histories'], text=t)
M, T, X = 'src/model.rs', 'src/material.rs', 'src/macros.rs'
TO, TM, TK, L = 'src/tokenizer/obj.rs', 'src/tokenizer/mtl.rs', 'src/tokenizer/mod.rs', 'src/lib.rs'


def mech(*ps):
    return [dict(name=n, where=w) for n, w in ps]


P = []


def prop(id, title, statement, quant, why, files, mechanism, observe=None, state=None):
    a = dict(files=files, mechanism=mechanism, observe_at=observe or ['the value returned by load_obj or load_mtl'])
    if state:
        a['state'] = state
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why, anchors=a))


prop('P01', 'Loading any text ends with a value: no panic, no endless loop, no overflow',
     'For every UTF-8 text, however malformed, loading it as a model file returns Ok and loading it as a material file returns '
     'either Ok or an error value. Neither call panics, overflows an integer, indexes out of bounds, splits a character, '
     'recurses or loops without consuming input.',
     INP('every UTF-8 string, including truncated, binary-looking and non-ASCII text'),
     'The tests load a few dozen short well-formed ASCII texts; a panic needs one particular byte sequence (the shipped code '
     'panicked on U+212A where a keyword could start).',
     [L, M, T, TO, TM, TK, X],
     mech(('load_obj, load_mtl', L), ('parse_obj', TO), ('parse_mtl', TM), ('parse_float, parse_digit', TK),
          ('parse and the statement parsers', M), ('parse and the statement parsers', T), ('TokenSet as parser input', TK)))

prop('P02', 'Vertices, normals and texture coordinates are kept completely and in order',
     'After loading a model file, the lists of vertices, normals and texture coordinates hold exactly one entry per v, vn and vt '
     'statement, in file order, with the components in the order written. The optional fourth vertex component and the optional '
     'second and third texture components are present exactly when the file gives them, and no other statement changes these lists.',
     HIST('every sequence of statements, in any number, with any numbers as components'),
     'Index-based references make one lost or reordered entry corrupt the whole mesh; the tests load at most a few entries of each kind.',
     [M, TK], mech(('parse_vertex, parse_vertex_normal, parse_vertex_texture', M), ('fold in parse', M), ('get_token_float', L)))

prop('P03', 'Number literals are read at their exact value',
     'Every decimal literal (optional sign, digits with an optional point on either side, optional exponent with optional sign) is read as one number, '
     'and a floating-point field gets the nearest single-precision value to what is written. A literal without point or exponent '
     'that fits 32 signed bits is read as that integer, and one that does not fit is read as a floating-point number, never as another integer.',
     INP('every literal: any number of digits, either sign, any exponent'),
     'The tests read a handful of literals; the shipped code read 1e5 as the two numbers 1 and 0 and 2147483648 as 0.',
     [TK, L], mech(('parse_float', TK), ('parse_digit', TK), ('get_token_float, get_token_int', L)))

prop('P04', 'Faces keep every corner, with each index in its own role',
     'Each f statement becomes one face that holds one element per corner, in the order written. In a corner a, a/b, a//c or a/b/c the '
     'first index is the vertex index, the second the texture index and the third the normal index, with their signs, and an index that is not written is absent.',
     INP('any number of corners, any mix of the four forms, any 32-bit indices including negative ones'),
     'The tests use triangles and quads with one form each; mixing forms and absent middle indices is unbounded.',
     [M, TO], mech(('parse_face', M), ('Slash token', TO)))

prop('P05', 'Lines and points keep every index, with each index in its own role',
     'Each l statement becomes one line with one element per entry in the order written, an entry a/b giving vertex index a and texture index b and '
     'an entry a giving no texture index. Each p statement becomes one point set that holds every index written, in order.',
     INP('any number of entries, any 32-bit indices'),
     'The tests use one or two short statements.', [M, TO], mech(('parse_line, parse_point', M)))

prop('P06', 'Faces, lines and points go to exactly the groups in force where they appear',
     'A face, line or point belongs to every group named by the latest g statement before it, or to the group "default" when there is none, '
     'and to no other group. Within a group they keep file order, and every group named in the file, and "default", has an entry in the group settings.',
     HIST('every interleaving of g statements (with one or several names, repeated or new) with faces, lines and points'),
     'It is a statement about the history of the file; the tests switch groups once or twice.',
     [M], mech(('parse_group', M), ('fold in parse', M), ('default of Model', M)),
     state=[dict(name='current groups', meaning='the groups that receive the next element', where=M)])

prop('P07', 'Each face carries the smoothing group in force where it appears',
     'Every face carries the number of the latest s statement before it, where "s on" counts as 1, "s off" and any other word as 0, and 0 when there is no s statement. '
     'Smoothing is independent of groups, materials and objects, and a later s statement does not change earlier faces.',
     HIST('every interleaving of s, f, g and other statements'),
     'It depends on the whole history before a face; the tests look at one or two faces.',
     [M, L], mech(('parse_smoothing', M), ('fold in parse', M)),
     state=[dict(name='current smoothing group', meaning='given to the next face', where=M)])

prop('P08', 'Group settings reach exactly the groups in force and change nothing else',
     'usemtl, usemap, bevel, c_interp, d_interp and lod each set that one setting of exactly the groups in force, with the last value given winning. Flags are true exactly for '
     '"on" in any letter case and lod is limited to 0 to 100. All other settings of those groups and all settings of other groups stay as they were, also when a group is left and re-entered, and a new group starts with '
     'no material, no map, flags off and lod 0.',
     HIST('every interleaving of group, setting and element statements'),
     'A frame condition over all other groups and settings after any history; the tests check one setting at a time, and the shipped code dropped four of the six.',
     [M, L], mech(('parse_material, parse_texture_map, parse_bevel, parse_c_interp, parse_d_interp, parse_lod', M), ('fold in parse', M), ('get_on_off_from_str', L)))

prop('P09', 'Library lists accumulate, shadow and trace objects take the last value',
     'The material library and texture library lists hold every name given by mtllib and maplib statements, in file order, none replaced. shadow_obj and trace_obj each '
     'hold the last name given or nothing, and o and vp statements change nothing in the result.',
     HIST('every number and order of these statements among others'),
     'The tests give each statement once.', [M], mech(('parse_mat_lib, parse_texture_lib, parse_shadow_obj, parse_trace_obj, parse_obj_name, parse_vertex_param', M), ('fold in parse', M)))

prop('P10', 'Layout, comments and keyword case do not change what a model file means',
     'In a model file, keywords are recognised in any letter case and only as whole words followed by white space, and the amount and kind of white space, blank lines, '
     'LF or CRLF line ends and comments from # to the end of the line do not change what is loaded. A name runs to the end of its line and is kept byte for byte, '
     'including inner spaces and non-ASCII characters.',
     INP('every text and every placement of white space, comments and letter case'),
     'The tests use one layout; the number of layouts of one file is unbounded.',
     [TO, TK], mech(('parse_obj', TO)))

prop('P11', 'Layout, comments and keyword case do not change what a material file means',
     'In a material file, statement and option keywords are recognised in any letter case and only as whole words followed by white space, and the amount and kind of white space, blank lines, '
     'LF or CRLF line ends and comments from # to the end of the line do not change what is loaded. A name runs to the next space or line end and is kept byte for byte, including non-ASCII characters.',
     INP('every text and every placement of white space, comments and letter case'),
     'The tests use one layout; the number of layouts of one file is unbounded.',
     [TM, TK], mech(('parse_mtl', TM)))

prop('P12', 'Each newmtl starts one material; settings before the first are an error',
     'A loaded material file yields one material per newmtl statement, in file order and with exactly the name given, also when names repeat. A file whose first statement sets a property before any newmtl, '
     'and a text with no material statement at all, give an error and no materials.',
     HIST('every sequence of material statements'),
     'The tests load one to three materials.', [T, L], mech(('parse_new_material, parse_material_set', T), ('parse', T), ('load_mtl', L)))

prop('P13', 'A material statement sets its own property of the latest material only',
     'Every statement after a newmtl sets only its own property, and only on the material started by the latest newmtl; the last statement for a property wins. A property no statement sets is absent, '
     'and a new material inherits nothing from earlier ones.',
     HIST('every sequence of material statements over any number of materials'),
     'A frame condition over 21 properties and all earlier materials; the tests set few properties at a time.',
     [T], mech(('set_from_material_element', T), ('parse', T)))

prop('P14', 'Colours are read in the form they are written',
     'Ka, Kd, Ks, Ke and Tf take an RGB triple, "xyz" values or a "spectral" file, and the loaded colour has that form with the components in order. A second or third xyz component that is not written equals the first, '
     'and a missing spectral factor is 1.',
     INP('every combination of statement, form and numbers, with and without the optional components'),
     'The tests cover a few combinations of five statements and three forms.', [T], mech(('parse_color_type', T), ('parse_ambient, parse_diffuse, parse_specular, parse_emissive_coefficient, parse_transmission_factor', T)))

prop('P15', 'Scalar material properties take the value written',
     'Ns, Tr, sharpness and Ni hold the number written, d holds it as an alpha or, with -halo, as a halo factor, and illum holds the integer written. map_aat is true exactly for "on" in any letter case.',
     INP('every number in every literal form'),
     'The tests use one value per statement.', [T, L], mech(('parse_specular_exponent, parse_transparency, parse_sharpness, parse_index_of_refraction', T), ('parse_disolve, parse_illumination_model, parse_anti_alias_map', T)))

prop('P16', 'Texture maps keep their file name and every option, in any order',
     'map_Ka, map_Kd, map_Ks, map_Ns, map_d, disp (also written map_disp) and decal record the file name and, for every option that applies to that kind of map, the last value given, whatever the order and number of options. '
     'An option that is not given is absent, offset, scale and turbulence keep one, two or three components as written, and an option that does not apply to the kind of map changes nothing.',
     HIST('every list of options in every order, with repetition'),
     'The orders and subsets of 13 options over 7 kinds of map are beyond a handful of examples.',
     [T], mech(('parse_options and the option parsers', T), ('new of ColorCorrectedMap and NonColorCorrectedMap', T), ('the map statement parsers', T)))

prop('P17', 'Bump and reflection maps keep their own option beside the common ones',
     'A bump statement records the -bm multiplier and a refl statement the -type, wherever it stands among the options, the first one counting if it is repeated, absent (or empty for -type) if it is not given. '
     'Both also record the file name and the common options as the other maps do.',
     HIST('every list of options in every order, with repetition'),
     'As for the other maps; the tests use one order.',
     [T], mech(('parse_bump_map, parse_reflection_map', T), ('new of BumpMap and ReflectionMap', T), ('parse_option_bm, parse_option_reflection_type', T)))

prop('P18', 'No statement is lost silently',
     'When loading returns Ok, every statement of the text is reflected in the result; text that cannot be understood is reported as an error. In particular no well-formed statement is skipped because of the statements around it, '
     'and reading never stops before the end of the text without an error.',
     HIST('every text, well formed or not, of any length'),
     'A silent stop needs a particular statement followed by others; the tests end where their statements end.',
     [M, T, TO, TM], mech(('the remainder returned by the fold in parse', M), ('the remainder returned by parse_material_set', T), ('the loops of parse_obj and parse_mtl', TO)))

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
