"""Contracts assumed for library code (std, and nom's `&str` comparisons).

Each model is the documented behaviour of one public library function; a call
that would panic by that documentation raises Panic, which is a failed proof
obligation at the caller.  Everything used is listed in the evidence."""
import re
import z3
from engine import *
import engine

INLINE_CRATES = {'core', 'alloc', 'std', 'nom', 'log', 'thiserror'}

EXACT = {}
RX = []


def model(*paths):
    def d(fn):
        for p in paths:
            EXACT[p] = fn
        return fn
    return d


def rx(pattern):
    def d(fn):
        RX.append((re.compile(pattern), fn))
        return fn
    return d


_memo = {}


def find(f):
    p = f['path']
    if f['derived'] and f['krate'] not in ('core', 'alloc', 'std'):
        if p.endswith('::Clone>::clone'):
            return m_clone
        if p.endswith('::PartialEq>::eq') or re.search(r'cmp::PartialEq(<.*>)?>::eq$', p):
            return m_eq
        if p.endswith('::fmt'):
            return m_opaque_fmt
    k = f['path']
    if k in _memo:
        return _memo[k]
    m = EXACT.get(p)
    if m is None:
        for r, fn in RX:
            if r.search(p):
                m = fn
                break
    _memo[k] = m
    return m


# ------------------------------------------------------- what may be inlined
ALLOW = [re.compile(x) for x in (
    r'^std::option::', r'^std::result::', r'^<std::option::', r'^<std::result::', r'^<std::ops::ControlFlow',
    r'^<(bool|f32|i32|u8|u32|usize|char|i64|u64) as std::default::Default>',
    r'^<T as std::convert::(From|Into|TryInto|TryFrom)', r'^<I as std::iter::IntoIterator>', r'^std::cmp::impls::', r'^std::cmp::(Ord|PartialOrd|PartialEq)::',
    r'^std::cmp::Ordering', r'^std::clone::', r'^<&T as ', r'^std::convert::', r'^<T as std::borrow', r'^core::bool::',
    r'(^|[ :])std::iter::Iterator>?::(any|all|find|position|find_map|try_fold|try_for_each|fold|for_each)(::check)?$',
    r'^std::iter::Iterator::(map|cloned|copied|enumerate|filter|filter_map|zip|rev|skip|take|take_while|peekable|chain|inspect|by_ref)$',
    r'^std::iter::(adapters::)?\w+::<.*>::new$', r'^std::num::NonZero', r'^<std::ops::Range', r'^std::ops::Range', r'^std::cmp::(min|max)$',
    r'^std::char::methods::<impl char>::is_', r'^core::num::<impl u8>::', r'^core::num::<impl i32>::(clamp|abs|wrapping_neg|is_negative|is_positive)',
    r'^std::boxed::', r'^std::ops::', r'^core::unicode', r'^std::hint::must_use', r'^std::mem::drop', r'^std::prelude',
    r'^<std::borrow::Cow<.* as std::(ops::Deref|convert::AsRef)',
)]


def may_inline(f):
    return any(r.search(f['path']) for r in ALLOW)


# ---------------------------------------------------------------- helpers
def val(it, v):
    n = 0
    while isinstance(v, (VRef, VBox)):
        v = it.c.load(v.cell, v.path) if isinstance(v, VRef) else v.cell.v
        n += 1
        if n > 20:
            raise Unsupported('reference cycle')
    return v


def ref(v):
    if isinstance(v, VBox):
        return VRef(v.cell)
    if not isinstance(v, VRef):
        raise Unsupported('a mutable reference is expected, not %r' % (v,))
    return v


def setref(it, r, v):
    r = ref(r)
    it.c.store(r.cell, r.path, v)


def deepref(it, r):
    """Follow references to the place that holds a value."""
    r = ref(r)
    while True:
        v = it.c.load(r.cell, r.path)
        if isinstance(v, VRef):
            r = v
        else:
            return r, v


def opt_arg(it, ty):
    t = it.prog.ty(ty)
    return str(t['args'][0]['ty'])


def some(it, retty, x):
    return VAgg(retty, 1, (x,))


def none(it, retty):
    return VAgg(retty, 0, ())


def ok(it, retty, x):
    return VAgg(retty, 0, (x,))


def err(it, retty, x):
    return VAgg(retty, 1, (x,))


def as_seq(it, v):
    v = val(it, v)
    if isinstance(v, VIter):
        return v.seq
    if isinstance(v, VSeq):
        return v
    raise Unsupported('a sequence is expected, not %r' % (v,))


def as_str(it, v):
    v = val(it, v)
    if isinstance(v, VStr):
        return v
    if isinstance(v, VAgg) and len(v.f) == 1:
        return as_str(it, v.f[0])
    raise Unsupported('a string is expected, not %r' % (v,))


def wrap_elem(it, seq, i, kind):
    pass


def default_value(it, tyid, key):
    t = it.prog.ty(tyid)
    k = t['k']
    if k in ('int', 'uint'):
        return 0
    if k == 'bool':
        return False
    if k == 'float':
        import interp
        return interp.fconst(0)
    if k == 'ref' and it.prog.ty(t['e'])['k'] == 'str':
        return VStr(())
    if k == 'tuple':
        return VAgg(str(tyid), 0, tuple(default_value(it, str(e), key) for e in t['es']))
    if k == 'adt':
        if it.prog.is_string(t) or it.prog.is_cow_str(t):
            return VStr(())
        if it.prog.is_vec(t):
            return VSeq(())
        if it.prog.is_map(t):
            return VMap(None, (), str(t['args'][0]['ty']), str(t['args'][1]['ty']))
        if t['def'].endswith('option::Option'):
            return VAgg(str(tyid), 0, ())
        iid = it.prog.default_of.get(str(tyid))
        if iid is not None:
            return it.call_inst(iid, [], intern_key((key, 'dflt')), None, str(tyid))
    raise Unsupported('default of %s' % t['s'])


# ---------------------------------------------------------------- generic
@rx(r'as std::clone::Clone>::clone$|^std::clone::Clone::clone$|^std::clone::impls::')
def m_clone(it, f, a, key, rt):
    t = it.prog.ty(rt) if rt else None
    if t is not None and t['k'] in ('ref', 'ptr'):
        # &T::clone: argument is &&T
        v = a[0]
        return it.c.load(v.cell, v.path) if isinstance(v, VRef) else v
    v = a[0]
    if isinstance(v, VRef):
        v = it.c.load(v.cell, v.path)
    if isinstance(v, VIter) or not isinstance(v, VRef):
        return v
    return v


@model('std::borrow::ToOwned::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<T as std::borrow::ToOwned>::to_owned', 'std::borrow::Cow::<\'_, B>::into_owned', 'std::borrow::Cow::<B>::into_owned',
       '<std::string::String as std::convert::From<&str>>::from', '<std::string::String as std::convert::From<std::borrow::Cow<\'a, str>>>::from',
       '<std::string::String as std::convert::From<&std::string::String>>::from', '<std::string::String as std::convert::From<&mut str>>::from',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::ops::Deref>::deref',
       '<std::borrow::Cow<\'_, B> as std::ops::Deref>::deref', '<std::borrow::Cow<\'_, B> as std::convert::AsRef<T>>::as_ref',
       'std::string::String::as_str', 'std::string::String::into_boxed_str', 'std::borrow::Cow::<\'_, B>::to_mut',
       'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow', 'core::str::<impl std::convert::AsRef<str> for str>::as_ref',
       '<std::borrow::Cow<\'a, str> as std::convert::From<&\'a str>>::from', '<std::borrow::Cow<\'a, str> as std::convert::From<std::string::String>>::from',
       'std::string::String::leak', 'std::str::<impl str>::to_string', '<std::string::String as std::convert::Into<std::string::String>>::into',
       'std::str::<impl str>::into_string', '<str as std::string::SpecToString>::spec_to_string', 'core::str::<impl str>::as_bytes_str')
def m_str_id(it, f, a, key, rt):
    v = val(it, a[0])
    if isinstance(v, VStr):
        return v
    if isinstance(v, VSeq):
        return v
    return v


@rx(r'std::string::ToString>::to_string$|^std::string::ToString::to_string$')
def m_to_string(it, f, a, key, rt):
    v = val(it, a[0])
    if isinstance(v, VStr):
        return v
    if is_z(v) or isinstance(v, (int, bool)):
        return display(it, v)
    return VStr((('a', ('text-of', it.c.loc, key)),))


f_i2s = z3.Function('display_int', IS, SS)
f_f2s = z3.Function('display_f32', FS, SS)


def display(it, v):
    if isinstance(v, bool):
        return it.c.lit('true' if v else 'false')
    if isinstance(v, int):
        return it.c.lit(str(v))
    if v.sort() == IS:
        return VStr((('x', f_i2s(v)),))
    if v.sort() == FS:
        return VStr((('x', f_f2s(v)),))
    raise Unsupported('to_string')


@rx(r'cmp::PartialEq(<.*>)?>::eq$|cmp::PartialEq(<.*>)? for .*>::eq$|^std::array::equality::')
def m_eq(it, f, a, key, rt):
    x, y = val(it, a[0]), val(it, a[1])
    if is_z(x) and x.sort() == FS or is_z(y) and y.sort() == FS:
        import interp
        return interp.fop(it.c, 'Eq', x, y)
    return code_eq(it.c, x, y)


@rx(r'cmp::PartialEq(<.*>)?>::ne$|cmp::PartialEq(<.*>)? for .*>::ne$|^std::cmp::PartialEq::ne$')
def m_ne(it, f, a, key, rt):
    # the provided `ne` is !eq; resolve through derived / library eq only
    return znot(m_eq(it, f, a, key, rt))


def code_eq(c, x, y):
    sv, c.code_eq = c.code_eq, True
    try:
        return c.veq(x, y)
    finally:
        c.code_eq = sv


def m_opaque_fmt(it, f, a, key, rt):
    raise Unsupported('formatting of %s' % f['path'])


def formatted(it, template, args):
    """The text of format_args!(..) when every placeholder is a plain `{}` of a text or a
    character; the template is rustc's byte encoding (core::fmt::Arguments)."""
    b = []
    for p in template.p:
        if p[0] != 'i':
            return None
        b.extend(p[1])
    if any(is_z(x) for x in b):
        return None
    xs = []
    for p in args.p:
        if p[0] != 'i':
            return None
        xs.extend(p[1])
    out, i = VStr(()), 0
    while i < len(b) and b[i]:
        n = b[i]
        i += 1
        if n == 0xC0:
            if not xs or not isinstance(xs[0], VOpaque) or xs[0].tag != ('fmtarg',):
                return None
            out = it.c.str_cat(out, xs.pop(0).f[0])
            continue
        if n == 0x80:
            n = b[i] + 256 * b[i + 1]
            i += 2
        elif n > 0x80:
            return None
        out = it.c.str_cat(out, VStr((('l', bytes(b[i:i + n])),)))
        i += n
    return out


TEXT_TYPE = re.compile(r"^(&|'\w+ |mut )*(str|(std|alloc)::string::String|std::borrow::Cow<'\w+, str>)$")


@rx(r'^std::fmt::|^core::fmt::|^std::fmt::format$|^<std::fmt|^<std::string::String as std::fmt::Write>::')
def m_fmt(it, f, a, key, rt):
    t = it.prog.ty(rt) if rt else None
    nm = f['path'].rsplit('::', 1)[-1]
    c = it.c
    if nm == 'new_display' and f.get('args') and 'ty' in f['args'][-1]:
        ty = it.prog.ty(str(f['args'][-1]['ty']))
        try:
            if TEXT_TYPE.match(ty['s']):
                return VOpaque(('fmtarg',), (as_str(it, a[0]),))
            if ty['k'] == 'char':
                return VOpaque(('fmtarg',), (char_str(it, val(it, a[0])),))
        except Unsupported:
            pass
    elif nm == 'new' and 'Arguments' in f['path'] and len(a) == 2:
        s = formatted(it, val(it, a[0]), val(it, a[1]))
        if s is not None:
            return VOpaque(('fmtargs',), (s,))
    elif nm in ('from_str', 'new_const') and 'Arguments' in f['path'] and len(a) == 1:
        try:
            return VOpaque(('fmtargs',), (as_str(it, a[0]),))
        except Unsupported:
            pass
    elif nm in ('write_fmt', 'write_str', 'write_char') and a:
        r, s = deepref(it, a[0])
        if not isinstance(s, VStr):
            raise Unsupported('writing to %r' % (s,))
        if nm == 'write_fmt':
            x = a[1].f[0] if isinstance(a[1], VOpaque) and a[1].tag == ('fmtargs',) else VStr((('a', ('formatted', key, str(c.fresh('fmt')))),))
        else:
            x = as_str(it, a[1]) if nm == 'write_str' else char_str(it, a[1])
        c.store(r.cell, r.path, c.str_cat(s, x))
        return ok(it, rt, UNIT)
    if t is not None and it.prog.is_string(t):
        if nm == 'format' and len(a) == 1 and isinstance(a[0], VOpaque) and a[0].tag == ('fmtargs',):
            return a[0].f[0]
        return VStr((('a', ('formatted', key, str(c.fresh('fmt')))),))
    return VOpaque(('fmt', f['path']))


@model('std::mem::size_of', 'core::mem::size_of')
def m_size_of(it, f, a, key, rt):
    ty = str(f['args'][-1]['ty'])
    try:
        n = it.size_of(ty)
    except Unsupported:
        n = None
    if n is not None:
        return n
    # not in the dump: some size
    n = z3.Int('sizeof:%s' % it.prog.ty(ty)['s'])
    it.c.axiom(('sizeof', ty), n >= 0, n <= 1 << 20)
    return n


@rx(r'^log::max_level$')
def m_max_level(it, f, a, key, rt):
    # whether anything is logged cannot influence results: pick the silent level
    return VAgg(rt, 0, ())


@rx(r'^<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::(le|lt|ge|gt)$|^std::cmp::PartialOrd::(le|lt|ge|gt)$')
def m_lvl(it, f, a, key, rt):
    if 'log::' in f['path']:
        return False
    t = it.prog.ty(f['args'][0]['ty'])
    if t['k'] == 'adt' and t['def'].startswith('log::'):
        return False
    return it.call_fn_or_unsup(f, a, key)


@rx(r'^log::__private_api|^log::logger$|^<log::|^log::')
def m_log(it, f, a, key, rt):
    if rt:
        t = it.prog.ty(rt)
        if t['k'] == 'tuple' and not t['es']:
            return UNIT
        if t['k'] == 'bool':
            return False
    return VOpaque('log')


@model('std::mem::replace')
def m_replace(it, f, a, key, rt):
    r = ref(a[0])
    old = it.c.load(r.cell, r.path)
    it.c.store(r.cell, r.path, a[1])
    return old


@model('std::mem::take')
def m_take(it, f, a, key, rt):
    r = ref(a[0])
    old = it.c.load(r.cell, r.path)
    it.c.store(r.cell, r.path, default_value(it, rt, key))
    return old


@model('std::mem::swap')
def m_swap(it, f, a, key, rt):
    r, s = ref(a[0]), ref(a[1])
    x, y = it.c.load(r.cell, r.path), it.c.load(s.cell, s.path)
    it.c.store(r.cell, r.path, y)
    it.c.store(s.cell, s.path, x)
    return UNIT


@model('std::option::Option::<T>::take')
def m_opt_take(it, f, a, key, rt):
    r, old = deepref(it, a[0])
    it.c.store(r.cell, r.path, none(it, rt))
    return old


@model('std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_ref')
def m_opt_as(it, f, a, key, rt):
    r, v = deepref(it, a[0])
    if it.c.branch(it.c.is_variant(v, [1])):
        return some(it, rt, relookup(it, VRef(r.cell, r.path + (('d', 1), ('f', 0))), rt))
    return none(it, rt)


def relookup(it, r, optty):
    """&str / &[T] inside an Option<&..> are carried by value."""
    t = it.prog.ty(opt_arg(it, optty))
    if t['k'] == 'ref':
        e = it.prog.ty(t['e'])
        if e['k'] in ('str', 'slice') and t.get('mut') != 'Mut':
            return val(it, r)
    return r


@model('std::option::Option::<T>::as_deref')
def m_opt_as_deref(it, f, a, key, rt):
    r, v = deepref(it, a[0])
    if it.c.branch(it.c.is_variant(v, [1])):
        x = it.c.as_variant(v, 1).f[0]
        if isinstance(x, (VStr, VSeq)):
            return some(it, rt, x)
        raise Unsupported('as_deref')
    return none(it, rt)


@model('std::option::Option::<T>::get_or_insert_with', 'std::option::Option::<T>::insert', 'std::option::Option::<T>::get_or_insert')
def m_goi(it, f, a, key, rt):
    r, v = deepref(it, a[0])
    if f['path'].endswith('::insert') or not it.c.branch(it.c.is_variant(v, [1])):
        x = it.call_value(a[1], [], key) if f['path'].endswith('with') else a[1]
        it.c.store(r.cell, r.path, VAgg(v.ty, 1, (x,)))
    return VRef(r.cell, r.path + (('d', 1), ('f', 0)))


@rx(r'^std::panicking::|^core::panicking::|^std::rt::begin_panic|^std::option::(expect|unwrap)_failed|^std::result::unwrap_failed|^core::option::|^core::slice::index::slice_.*fail|^core::str::slice_error_fail')
def m_panic(it, f, a, key, rt):
    raise Panic(f['path'])


@rx(r'::precondition_check$|^std::intrinsics::(assume|cold_path|assert_inhabited)|^std::hint::assert_unchecked|^core::ub_checks')
def m_nop(it, f, a, key, rt):
    return UNIT


@rx(r'^std::intrinsics::(likely|unlikely)$')
def m_id(it, f, a, key, rt):
    return a[0]


# ---------------------------------------------------------------- Box
@rx(r'^std::boxed::Box::<T>::new$')
def m_box(it, f, a, key, rt):
    return VBox(Cell(a[0], (key, 'box')))


@rx(r'^std::boxed::(Box::<T>::new_uninit|box_new_uninit)$')
def m_box_uninit(it, f, a, key, rt):
    return VBox(Cell(MUNINIT, (key, 'box')))


@rx(r'^std::boxed::box_assume_init_into_vec_unsafe$')
def m_box_vec(it, f, a, key, rt):
    v = val(it, a[0])
    if not isinstance(v, VSeq):
        raise Unsupported('vec! contents %r' % (v,))
    return v


@rx(r'^std::slice::<impl \[T\]>::into_vec$')
def m_into_vec(it, f, a, key, rt):
    return as_seq(it, a[0])


# ---------------------------------------------------------------- Vec and slices
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default',
       '<&[T] as std::default::Default>::default')
def m_vec_new(it, f, a, key, rt):
    return VSeq(())


@rx(r'^<std::(option::Option<T>|collections::HashMap<.*>|borrow::Cow<.*>|string::String) as std::default::Default>::default$|^core::str::<impl std::default::Default for &str>::default$')
def m_default(it, f, a, key, rt):
    return default_value(it, rt, key)


@model('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut', 'std::vec::Vec::<T, A>::push_within_capacity')
def m_push(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    n = it.c.seq_len(s)
    it.c.store(r.cell, r.path, it.c.seq_push(s, a[1]))
    if f['path'].endswith('push_mut'):
        return VRef(r.cell, r.path + (('i', n),))
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def m_pop(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    n = c.seq_len(s)
    if c.branch(zeq(n, 0)):
        return none(it, rt)
    x = c.seq_get(s, zsimp(n - 1))
    c.store(r.cell, r.path, c.seq_slice(s, 0, zsimp(n - 1)))
    return some(it, rt, x)


@model('std::vec::Vec::<T, A>::clear')
def m_clear(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    it.c.store(r.cell, r.path, VSeq(()))
    return UNIT


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    n = it.c.seq_len(s)
    if it.c.branch(zsimp(a[1] < n) if is_z(a[1]) or is_z(n) else a[1] < n):
        it.c.store(r.cell, r.path, it.c.seq_slice(s, 0, a[1]))
    return UNIT


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve_exact',
       'std::string::String::reserve')
def m_reserve(it, f, a, key, rt):
    return UNIT


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', '<std::slice::Iter<\'_, T> as std::iter::ExactSizeIterator>::len',
       'std::iter::ExactSizeIterator::len')
def m_len(it, f, a, key, rt):
    v = val(it, a[0])
    if isinstance(v, VStr):
        return it.c.str_len(v)
    return it.c.seq_len(as_seq(it, v))


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_is_empty(it, f, a, key, rt):
    return zeq(it.c.seq_len(as_seq(it, a[0])), 0)


@rx(r'^<std::vec::Vec<T, A> as std::(ops::Deref|convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>|convert::AsRef<std::vec::Vec<T, A>>)>::|^std::vec::Vec::<T, A>::(as_slice|into_boxed_slice)$|^core::array::<impl .*AsRef<\[T\]>|^std::array::<impl \[T; N\]>::as_slice$')
def m_deref(it, f, a, key, rt):
    if rt and it.prog.ty(rt)['k'] == 'ref' and it.prog.ty(it.prog.ty(rt)['e'])['k'] != 'slice':
        return a[0]
    return as_seq(it, a[0])


@rx(r'^<std::vec::Vec<T, A> as std::(ops::DerefMut|convert::AsMut<\[T\]>)>::|^std::vec::Vec::<T, A>::as_mut_slice$')
def m_deref_mut(it, f, a, key, rt):
    return deepref(it, a[0])[0]


def bound_check(it, i, n, incl=False):
    c = it.c
    good = (i <= n if incl else i < n)
    if not isinstance(good, bool):
        good = c.branch(good)
    if not good:
        raise Panic('index out of bounds')


def range_of(it, v, n):
    """(a, b) of a range value, by its type."""
    t = it.prog.ty(v.ty)
    d = t['def'].split('::')[-1]
    if d == 'RangeFull':
        return 0, n
    if d == 'RangeFrom':
        return v.f[0], n
    if d == 'RangeTo':
        return 0, v.f[0]
    if d == 'Range':
        return v.f[0], v.f[1]
    if d == 'RangeToInclusive':
        return 0, zsimp(v.f[0] + 1)
    raise Unsupported('range type %s' % d)


@rx(r'^<std::vec::Vec<T, A> as std::ops::Index<I>>::index$|^core::slice::index::<impl std::ops::Index<I> for \[T\]>::index$|^<usize as std::slice::SliceIndex<\[T\]>>::index$|^<std::ops::Range.* as std::slice::SliceIndex<\[T\]>>::index$|^std::array::<impl std::ops::Index')
def m_index(it, f, a, key, rt):
    c = it.c
    if 'SliceIndex' in f['path']:
        a = [a[1], a[0]]
    s = as_seq(it, a[0])
    n = c.seq_len(s)
    i = a[1]
    if isinstance(i, VAgg):
        x, y = range_of(it, i, n)
        bound_check(it, y, n, True)
        bound_check(it, x, y, True)
        return c.seq_slice(s, x, y)
    bound_check(it, i, n)
    return elem_ref(it, a[0], s, i)


def elem_ref(it, holder, s, i):
    if isinstance(holder, VRef):
        r, _ = deepref(it, holder)
        return VRef(r.cell, r.path + (('i', i),))
    return VRef(Cell(it.c.seq_get(s, i), ('elem', repr(s), zkey(i))))


@rx(r'as std::ops::IndexMut<I>>::index_mut$|^core::slice::index::<impl std::ops::IndexMut<I> for \[T\]>::index_mut$')
def m_index_mut(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    if isinstance(a[1], VAgg):
        raise Unsupported('mutable range')
    bound_check(it, a[1], it.c.seq_len(s))
    return VRef(r.cell, r.path + (('i', a[1]),))


@rx(r'^core::slice::<impl \[T\]>::(get|get_mut)$')
def m_get(it, f, a, key, rt):
    c = it.c
    s = as_seq(it, a[0])
    n = c.seq_len(s)
    i = a[1]
    if isinstance(i, VAgg):
        x, y = range_of(it, i, n)
        if c.branch(zb_and(zle(x, y), zle(y, n))):
            return some(it, rt, c.seq_slice(s, x, y))
        return none(it, rt)
    if c.branch(zlt(i, n)):
        return some(it, rt, elem_ref(it, a[0], s, i))
    return none(it, rt)


def zle(a, b):
    return zsimp(a <= b) if is_z(a) or is_z(b) else a <= b


def zlt(a, b):
    return zsimp(a < b) if is_z(a) or is_z(b) else a < b


def zb_and(*xs):
    return zand(*xs)


@rx(r'^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$')
def m_first(it, f, a, key, rt):
    c = it.c
    if f['path'].endswith('_mut'):
        r, s = deepref(it, a[0])
        holder = r
    else:
        s = as_seq(it, a[0])
        holder = a[0]
    n = c.seq_len(s)
    if c.branch(zeq(n, 0)):
        return none(it, rt)
    i = 0 if 'first' in f['path'] else zsimp(n - 1)
    return some(it, rt, elem_ref(it, holder, s, i))


@rx(r'^core::slice::<impl \[T\]>::split_(first|last)$')
def m_split_first(it, f, a, key, rt):
    c = it.c
    s = as_seq(it, a[0])
    n = c.seq_len(s)
    if c.branch(zeq(n, 0)):
        return none(it, rt)
    tt = opt_arg(it, rt)
    if 'first' in f['path']:
        e, rest = elem_ref(it, a[0], s, 0), c.seq_slice(s, 1, n)
    else:
        e, rest = elem_ref(it, a[0], s, zsimp(n - 1)), c.seq_slice(s, 0, zsimp(n - 1))
    return some(it, rt, VAgg(tt, 0, (e, rest)))


@rx(r'^core::slice::<impl \[T\]>::split_at(_unchecked)?$')
def m_split_at(it, f, a, key, rt):
    c = it.c
    s = as_seq(it, a[0])
    n = c.seq_len(s)
    bound_check(it, a[1], n, True)
    return VAgg(rt, 0, (c.seq_slice(s, 0, a[1]), c.seq_slice(s, a[1], n)))


@rx(r'^core::slice::<impl \[T\]>::split_at_checked$')
def m_split_at_checked(it, f, a, key, rt):
    c = it.c
    s = as_seq(it, a[0])
    n = c.seq_len(s)
    if not c.branch(zle(a[1], n)):
        return none(it, rt)
    return some(it, rt, VAgg(opt_arg(it, rt), 0, (c.seq_slice(s, 0, a[1]), c.seq_slice(s, a[1], n))))


@rx(r'^std::slice::<impl \[T\]>::to_vec$|ConvertVec>::to_vec$|^std::vec::from_elem$|^<std::vec::Vec<T> as std::convert::From<(&|\[|&mut).*>>::from$|^std::slice::<impl .*ToOwned.*>::to_owned$')
def m_to_vec(it, f, a, key, rt):
    if f['path'] == 'std::vec::from_elem':
        if isinstance(a[1], int) and a[1] <= 16:
            return it.c.seq_items(*[a[0]] * a[1])
        raise Unsupported('vec![x; n]')
    return as_seq(it, a[0])


@rx(r'^std::vec::Vec::<T, A>::(split_off)$')
def m_split_off(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    n = c.seq_len(s)
    bound_check(it, a[1], n, True)
    c.store(r.cell, r.path, c.seq_slice(s, 0, a[1]))
    return c.seq_slice(s, a[1], n)


@rx(r'^std::vec::Vec::<T, A>::(remove)$')
def m_remove(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    n = c.seq_len(s)
    bound_check(it, a[1], n)
    x = c.seq_get(s, a[1])
    c.store(r.cell, r.path, c.seq_cat(c.seq_slice(s, 0, a[1]), c.seq_slice(s, zsimp(a[1] + 1), n)))
    return x


@rx(r'^std::vec::Vec::<T, A>::(insert)$')
def m_insert(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    n = c.seq_len(s)
    bound_check(it, a[1], n, True)
    c.store(r.cell, r.path, c.seq_norm(c.seq_slice(s, 0, a[1]).p + (('i', (a[2],)),) + c.seq_slice(s, a[1], n).p))
    return UNIT


@rx(r'^std::vec::Vec::<T, A>::(append)$')
def m_append(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    q, t = deepref(it, a[1])
    it.c.store(r.cell, r.path, it.c.seq_cat(s, t))
    it.c.store(q.cell, q.path, VSeq(()))
    return UNIT


@rx(r'^std::vec::Vec::<T, A>::(drain)$')
def m_drain(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    n = c.seq_len(s)
    x, y = range_of(it, a[1], n)
    bound_check(it, y, n, True)
    bound_check(it, x, y, True)
    c.store(r.cell, r.path, c.seq_cat(c.seq_slice(s, 0, x), c.seq_slice(s, y, n)))
    return VIter('own', c.seq_slice(s, x, y))


@rx(r'^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$|^std::vec::Vec::<T, A>::extend_from_slice$')
def m_extend(it, f, a, key, rt):
    c = it.c
    src = a[1]
    r, s = deepref(it, a[0])
    v = val(it, src) if isinstance(src, VRef) else src
    if isinstance(v, VAgg) and it.prog.ty(v.ty).get('def', '').split('::')[-1] in ('Cloned', 'Copied') and isinstance(v.f[0], VIter) and v.f[0].kind == 'ref':
        v = v.f[0].seq
    if isinstance(v, VIter) and v.kind in ('ref', 'own', 'mut') and v.x is None:
        v = v.seq
    if isinstance(v, VSeq):
        c.store(r.cell, r.path, c.seq_cat(s, v))
        return UNIT
    if isinstance(v, VAgg) and it.prog.ty(v.ty).get('def', '').endswith('option::Option'):
        if c.branch(c.is_variant(v, [1])):
            c.store(r.cell, r.path, c.seq_push(s, c.as_variant(v, 1).f[0]))
        return UNIT
    run_iter(it, src, key, [r.cell], lambda x: push_to(it, r, x))
    return UNIT


def push_to(it, r, x):
    it.c.store(r.cell, r.path, it.c.seq_push(it.c.load(r.cell, r.path), x))


# ---------------------------------------------------------------- iterators
@rx(r'^core::slice::<impl \[T\]>::iter$|^core::slice::iter::<impl std::iter::IntoIterator for &\'a \[T\]>::into_iter$|^<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^std::array::<impl std::iter::IntoIterator for &\'a \[T; N\]>::into_iter$')
def m_iter(it, f, a, key, rt):
    r = None
    if isinstance(a[0], VRef):
        r, s = deepref(it, a[0])
    else:
        s = as_seq(it, a[0])
    return VIter('ref', s)


@rx(r'^core::slice::<impl \[T\]>::iter_mut$|^core::slice::iter::<impl std::iter::IntoIterator for &\'a mut \[T\]>::into_iter$|^<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^std::array::<impl std::iter::IntoIterator for &\'a mut \[T; N\]>::into_iter$')
def m_iter_mut(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    return VIter('mut', s, (r, 0))


@rx(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|IntoIterator for \[T; N\]>::into_iter$|^<std::option::Option<T> as std::iter::IntoIterator>::into_iter$')
def m_into_iter(it, f, a, key, rt):
    v = a[0]
    if isinstance(v, (VAgg, VSym)):
        if it.c.branch(it.c.is_variant(v, [1])):
            return VIter('own', it.c.seq_items(it.c.as_variant(v, 1).f[0]))
        return VIter('own', VSeq(()))
    return VIter('own', as_seq(it, v))


SKIP = object()


def iter_next(it, cell, path, key, skips=False):
    """Advance the iterator stored at a place; returns the item or None (exhausted).
    With `skips`, an element that a filter drops is reported as SKIP."""
    c = it.c
    v = c.load(cell, path)
    if isinstance(v, VRef):
        return iter_next(it, v.cell, v.path, key, skips)
    if isinstance(v, VIter):
        if v.kind in ('chars', 'bytes', 'charidx'):
            return chars_next(it, cell, path, v)
        s = v.seq
        n = c.seq_len(s)
        if c.branch(zeq(n, 0)):
            return None
        seqstep(it, s, key)
        if v.kind == 'mut':
            r, k = v.x
            c.store(cell, path, VIter('mut', c.seq_slice(s, 1, n), (r, k + 1)))
            return VRef(r.cell, r.path + (('i', k),))
        x = c.seq_get(s, 0)
        c.store(cell, path, VIter(v.kind, c.seq_slice(s, 1, n), v.x))
        if v.kind == 'ref':
            return VRef(Cell(x, ('item', key)))
        return x
    if isinstance(v, VAgg):
        d = it.prog.ty(v.ty).get('def', '')
        nm = d.split('::')[-1]
        if nm in ('Map',):
            x = iter_next(it, cell, path + (('f', 0),), key, skips)
            if x is None or x is SKIP:
                return x
            if isinstance(x, tuple):
                x = VAgg('pair', 0, (x[1], x[2]))
            return it.call_value(VRef(cell, path + (('f', 1),)), [x], intern_key((key, 'map')))
        if nm in ('Cloned', 'Copied'):
            x = iter_next(it, cell, path + (('f', 0),), key, skips)
            return x if x is None or x is SKIP else val(it, x)
        if nm == 'Enumerate':
            x = iter_next(it, cell, path + (('f', 0),), key, skips)
            if x is None or x is SKIP:
                return x
            k = c.load(cell, path + (('f', 1),))
            c.store(cell, path + (('f', 1),), zsimp(k + 1))
            return ('pair', k, x)
        if nm in ('Filter', 'FilterMap'):
            while True:
                x = iter_next(it, cell, path + (('f', 0),), key, skips)
                if x is None or x is SKIP:
                    return x
                if isinstance(x, tuple):
                    x = VAgg('pair', 0, (x[1], x[2]))
                clo = VRef(cell, path + (('f', 1),))
                if nm == 'Filter':
                    if c.branch(it.call_value(clo, [VRef(Cell(x, (intern_key((key, 'filtered')), 0)))], intern_key((key, 'filter')))):
                        return x
                else:
                    o = it.call_value(clo, [x], intern_key((key, 'filter')))
                    if c.branch(c.is_variant(o, [1])):
                        return c.as_variant(o, 1).f[0]
                if skips:
                    return SKIP
        if nm == 'Skip':
            k = c.load(cell, path + (('f', 1),))
            if is_z(k):
                raise Unsupported('skip')
            c.store(cell, path + (('f', 1),), 0)
            for _ in range(k):
                if iter_next(it, cell, path + (('f', 0),), key) is None:
                    return None
            return iter_next(it, cell, path + (('f', 0),), key)
        if nm == 'Take':
            k = c.load(cell, path + (('f', 1),))
            if c.branch(zeq(k, 0)):
                return None
            c.store(cell, path + (('f', 1),), zsimp(k - 1))
            return iter_next(it, cell, path + (('f', 0),), key)
        if nm == 'Range':
            x, y = v.f
            if c.branch(zlt(x, y)):
                c.store(cell, path + (('f', 0),), zsimp(x + 1))
                return x
            return None
    raise Unsupported('iterator %r' % (v,))


@rx(r'as std::iter::Iterator>::next$')
@rx(r'impl std::iter::Iterator for .*>::next$')
def m_next(it, f, a, key, rt):
    r = ref(a[0])
    v = it.c.load(r.cell, r.path)
    if not isinstance(v, (VIter, VRef)) and f['krate'] not in ('core', 'alloc', 'std'):
        return it.call_fn_inline(f, a, key) if hasattr(it, 'call_fn_inline') else unsup(f)
    if isinstance(v, VAgg) and it.prog.ty(v.ty).get('def', '').split('::')[-1] in ('Filter', 'FilterMap', 'SkipWhile') and not r.path:
        L = it.py_loop_enter(intern_key((key, 'skipping')), [r.cell])
        while True:
            x = iter_next(it, r.cell, r.path, intern_key((key, 'next')), True)
            if x is not SKIP:
                break
            it.loop_back(L)
        if L in it.c.active:
            it.c.active.remove(L)
    else:
        x = iter_next(it, r.cell, r.path, key)
    if x is None:
        return none(it, rt)
    if isinstance(x, tuple):
        x = VAgg(opt_arg(it, rt), 0, (x[1], x[2]))
    if isinstance(x, VRef) and isinstance(v, VIter) and v.kind == 'ref':
        x = relookup(it, x, rt)
    return some(it, rt, x)


LIST_LIMIT = 3


def listed(it, s):
    """The elements of a list of at most LIST_LIMIT elements; longer ones are out of reach."""
    c = it.c
    after_loop(c, s)
    n = c.seq_len(s)
    for k in range(LIST_LIMIT + 1):
        if c.branch(zeq(n, k)):
            return [c.seq_get(s, i) for i in range(k)]
    raise Unsupported('a list of unknown length')


def after_loop(c, s):
    """What a loop built is worked on after it: the loop's own contract says less than the function's result."""
    if not any(L.mode == 'cut' for L in c.active):
        for p in s.p:
            if p[0] == 's' and ' so far' in str(p[1].key):
                if POST not in c.run.unsupported:
                    c.run.unsupported.append(POST)
                return


POST = 'what a loop built is worked on after it'


def seqstep(it, s, key):
    """Count the steps over the elements of an unknown list at one place of the code."""
    c = it.c
    b = s.p[0][1].key if s.p and s.p[0][0] == 's' else None
    if b is None or not is_z(c.seq_len(s)):
        return
    after_loop(c, s)
    k = ('seqsteps', key, b, len(c.active))
    n = c.memo[k] = c.memo.get(k, 0) + 1
    if n > LIST_LIMIT + 3:
        for L in reversed(c.active):
            if L.mode == 'unroll' and ('walk', L.key) not in c.run.loopmemo:
                # look at the loop as a walk over the list
                c.run.loopmemo[('walk', L.key)] = {}
                raise Restart()
        raise Unsupported('an unbounded walk over a list')


def unsup(f):
    raise Unsupported('iterator %s' % f['path'])


def run_iter(it, itv, key, cells, step, closure=None):
    """A loop over an iterator value, as the library runs it."""
    c = it.c
    k2 = intern_key((key, 'loop'))
    ic = Cell(itv, (k2, 0))
    cl = [ic]
    if closure is not None:
        cc = Cell(closure, (k2, 1))
        cl.append(cc)
    for i, x in enumerate(cells):
        cl.append(Cell(VRef(x), (k2, len(cl))))
    if isinstance(itv, VSeq):
        ic.v = VIter('own', itv)
    L = it.py_loop_enter(k2, cl)
    while True:
        x = iter_next(it, ic, (), intern_key((k2, 'next')), True)
        if x is None:
            break
        if x is SKIP:
            it.loop_back(L)
            continue
        if isinstance(x, tuple):
            x = VAgg('pair', 0, (x[1], x[2]))
        if step(x) is False:
            break
        it.loop_back(L)
    if L in c.active:
        c.active.remove(L)


@rx(r'^<std::(slice::Iter(Mut)?|vec::IntoIter)<.*> as std::iter::Iterator>::(any|all|find|find_map|position)$')
def m_search(it, f, a, key, rt):
    c = it.c
    what = f['path'].split('::')[-1]
    clo = Cell(a[1], (intern_key((key, 'fe')), 0))
    at = Cell(0, (intern_key((key, 'fe')), 1))
    res = []

    def step(x):
        if what == 'find':
            r = it.call_value(VRef(clo), [VRef(Cell(x, (intern_key((key, 'found')), 0)))], intern_key((key, 'body')))
        else:
            r = it.call_value(VRef(clo), [x], intern_key((key, 'body')))
        if what == 'find_map':
            hit = c.branch(c.is_variant(r, [1]))
        else:
            hit = c.branch(r) != (what == 'all')
        if hit:
            res.append(r if what == 'find_map' else x if what == 'find' else at.v)
            return False
        if what == 'position':
            c.store(at, (), zsimp(at.v + 1))
        return None
    run_iter(it, a[0], key, [clo, at], step)
    if what in ('any', 'all'):
        return bool(res) != (what == 'all')
    if not res:
        return none(it, rt)
    if what == 'find_map':
        return res[0]
    x = res[0]
    if what == 'find' and isinstance(x, VRef):
        x = relookup(it, x, rt)
    return some(it, rt, x)


@rx(r'std::iter::Iterator>?::for_each$')
def m_for_each(it, f, a, key, rt):
    clo = Cell(a[1], (intern_key((key, 'fe')), 0))
    run_iter(it, a[0], key, [clo], lambda x: it.call_value(VRef(clo), [x], intern_key((key, 'body'))))
    return UNIT


@rx(r'std::iter::Iterator>?::fold$')
def m_fold(it, f, a, key, rt):
    clo = Cell(a[2], (intern_key((key, 'fe')), 0))
    acc = Cell(a[1], (intern_key((key, 'loop')), 1))
    c = it.c
    k2 = intern_key((key, 'loop'))
    ic = Cell(a[0] if not isinstance(a[0], VSeq) else VIter('own', a[0]), (k2, 0))
    L = it.py_loop_enter(k2, [ic, acc, clo])
    while True:
        x = iter_next(it, ic, (), intern_key((k2, 'next')), True)
        if x is None:
            break
        if x is SKIP:
            it.loop_back(L)
            continue
        if isinstance(x, tuple):
            x = VAgg('pair', 0, (x[1], x[2]))
        c.store(acc, (), it.call_value(VRef(clo), [acc.v, x], intern_key((key, 'body'))))
        it.loop_back(L)
    if L in c.active:
        c.active.remove(L)
    return acc.v


@rx(r'std::iter::Iterator>?::(try_fold|try_for_each)$')
def m_try_fold(it, f, a, key, rt):
    c = it.c
    each = f['path'].endswith('each')
    good = {'Result': 0, 'Option': 1, 'ControlFlow': 0}.get(it.prog.ty(rt).get('def', '').split('::')[-1])
    if good is None:
        raise Unsupported('try_fold into %s' % it.prog.ty(rt)['s'][:80])
    v = a[0]
    if not isinstance(v, VRef):
        raise Unsupported('try_fold on %r' % (v,))
    k2 = intern_key((key, 'loop'))
    start = c.load(v.cell, v.path)
    ic = Cell(VIter('own', start) if isinstance(start, VSeq) else start, (k2, 0))
    clo = Cell(a[-1], (intern_key((key, 'fe')), 0))
    acc = Cell(UNIT if each else a[1], (k2, 1))
    L = it.py_loop_enter(k2, [ic, acc, clo])
    while True:
        x = iter_next(it, ic, (), intern_key((k2, 'next')), True)
        if x is None:
            out = VAgg(rt, good, (acc.v,))
            break
        if x is SKIP:
            it.loop_back(L)
            continue
        if isinstance(x, tuple):
            x = VAgg('pair', 0, (x[1], x[2]))
        out = it.call_value(VRef(clo), [x] if each else [acc.v, x], intern_key((key, 'body')))
        if not c.branch(c.is_variant(out, [good])):
            break
        c.store(acc, (), c.as_variant(out, good).f[0])
        it.loop_back(L)
    if L in c.active:
        c.active.remove(L)
    c.store(v.cell, v.path, ic.v)
    return out


@rx(r'std::iter::Iterator>?::collect$|^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$')
def m_collect(it, f, a, key, rt):
    t = it.prog.ty(rt)
    if not (it.prog.is_vec(t) or it.prog.is_string(t)):
        raise Unsupported('collect into %s' % t['s'][:80])
    if it.prog.is_string(t):
        raise Unsupported('collect into a string')
    v = a[0]
    if isinstance(v, VIter) and v.kind == 'own':
        return v.seq
    if isinstance(v, VAgg) and it.prog.ty(v.ty).get('def', '').split('::')[-1] in ('Cloned', 'Copied') and isinstance(v.f[0], VIter):
        return v.f[0].seq
    acc = Cell(VSeq(()), (intern_key((key, 'acc')), 0))
    run_iter(it, v, key, [acc], lambda x: push_to(it, VRef(acc), x))
    return acc.v


@rx(r'std::iter::Iterator>?::(sum|product)$')
def m_sum(it, f, a, key, rt):
    c = it.c
    what = f['path'].split('::')[-1]
    t = it.prog.ty(rt)
    if t['k'] not in ('int', 'uint'):
        raise Unsupported('%s of %s' % (what, t['s']))
    lo, hi = int_range(t)
    acc = Cell(0 if what == 'sum' else 1, (intern_key((key, 'sum')), 0))

    def step(x):
        x = val(it, x)
        y = c.load(acc, ())
        r = zsimp(y + x) if what == 'sum' else zsimp(y * x)
        if not c.branch(zand(zle(lo, r), zle(r, hi))):
            raise Panic('attempt to add with overflow')
        c.store(acc, (), r)
    run_iter(it, a[0], key, [acc], step)
    return acc.v


@rx(r'std::iter::Iterator>?::(count|last|rev|nth)$')
def m_iter_list(it, f, a, key, rt):
    v = a[0]
    c = it.c
    what = f['path'].split('::')[-1]
    if what == 'count' and isinstance(v, VAgg):
        acc = Cell(0, (intern_key((key, 'count')), 0))
        run_iter(it, v, key, [acc], lambda x: c.store(acc, (), zsimp(c.load(acc, ()) + 1)))
        return acc.v
    if isinstance(v, VRef) or not isinstance(v, VIter) or v.kind not in ('ref', 'own'):
        raise Unsupported('iterator method %s' % f['path'])
    s = v.seq
    n = c.seq_len(s)
    if what == 'count':
        return n
    if what == 'rev':
        return VIter(v.kind, c.seq_items(*reversed(listed(it, s))))
    i = zsimp(n - 1) if what == 'last' else a[1]
    if not c.branch(zand(zle(0, i), zlt(i, n))):
        return none(it, rt)
    x = c.seq_get(s, i)
    return some(it, rt, relookup(it, VRef(Cell(x, ('item', key))), rt) if v.kind == 'ref' else x)


@rx(r'^std::array::<impl \[T; N\]>::map$')
def m_array_map(it, f, a, key, rt):
    cell = Cell(a[1], (intern_key((key, 'each')), 0))
    n = it.c.seq_len(a[0])
    if is_z(n):
        raise Unsupported('map over an array of unknown length')
    return VSeq((('i', tuple(it.call_value(VRef(cell), [it.c.seq_get(a[0], i)], intern_key((key, 'each', i))) for i in range(n))),))


@rx(r'^<std::boxed::Box<F, A> as std::ops::(Fn|FnMut|FnOnce)<Args>>::(call|call_mut|call_once)$')
def m_box_call(it, f, a, key, rt):
    if not isinstance(a[1], VAgg):
        raise Unsupported('closure arguments')
    return it.call_value(a[0], list(a[1].f), key)


@rx(r'^<bool as std::ops::(BitOr|BitAnd|BitXor)<&(\'a )?bool>>::|^<&(\'a )?bool as std::ops::(BitOr|BitAnd|BitXor)<&?(\'\w )?bool>>::|^<&(\'a )?bool as std::ops::Not>::')
def m_bool_ref(it, f, a, key, rt):
    xs = [val(it, x) for x in a]
    if '::Not>' in f['path']:
        return znot(xs[0])
    x, y = xs
    if 'BitOr' in f['path']:
        return zor(x, y)
    if 'BitAnd' in f['path']:
        return zand(x, y)
    return znot(zeq(x, y)) if not is_z(x) and not is_z(y) else zsimp(z3.Xor(x if is_z(x) else z3.BoolVal(x), y if is_z(y) else z3.BoolVal(y)))


@rx(r'^std::vec::Vec::<T, A>::(dedup_by|dedup_by_key)$')
def m_dedup(it, f, a, key, rt):
    c = it.c
    r, s = deepref(it, a[0])
    what = f['path'].split('::')[-1]
    clo = VRef(Cell(a[1], (intern_key((key, 'same')), 0))) if len(a) > 1 else None
    out = []
    for i, x in enumerate(listed(it, s)):
        if out:
            k = intern_key((key, i))
            cx, cy = VRef(Cell(x, (k, 'x'))), VRef(Cell(out[-1], (k, 'y')))
            if what == 'dedup_by':
                same = it.call_value(clo, [cx, cy], intern_key((k, 'call')))
            else:
                same = c.veq(it.call_value(clo, [cx], intern_key((k, 'kx'))), it.call_value(clo, [cy], intern_key((k, 'ky'))))
            if c.branch(same):
                continue
        out.append(x)
    c.store(r.cell, r.path, c.seq_items(*out))
    return UNIT


@rx(r'^core::slice::<impl \[T\]>::contains$')
def m_contains(it, f, a, key, rt):
    c = it.c
    s, x = as_seq(it, a[0]), val(it, a[1])
    for y in listed(it, s):
        if c.branch(code_eq(c, val(it, y), x)):
            return True
    return False


@rx(r'^std::vec::Vec::<T, A>::(retain|retain_mut|dedup)$|^core::slice::<impl \[T\]>::(reverse|swap)$|^std::slice::<impl \[T\]>::reverse$')
def m_list_edit(it, f, a, key, rt):
    c = it.c
    what = f['path'].split('::')[-1]
    r, s = deepref(it, a[0])
    if what == 'swap':
        n = c.seq_len(s)
        i, j = a[1], a[2]
        bound_check(it, i, n, False)
        bound_check(it, j, n, False)
        if c.branch(zeq(i, j)):
            return UNIT
        if c.branch(zlt(j, i)):
            i, j = j, i
        x, y = c.seq_get(s, i), c.seq_get(s, j)
        after_loop(c, s)
        c.store(r.cell, r.path, c.seq_cat(c.seq_push(c.seq_cat(c.seq_push(c.seq_slice(s, 0, i), y), c.seq_slice(s, zsimp(i + 1), j)), x), c.seq_slice(s, zsimp(j + 1), n)))
        return UNIT
    xs = listed(it, s)
    if what == 'reverse':
        xs.reverse()
    elif what == 'dedup':
        out = []
        for x in xs:
            if not out or not c.branch(code_eq(c, val(it, out[-1]), val(it, x))):
                out.append(x)
        xs = out
    else:
        out = []
        clo = Cell(a[1], (intern_key((key, 'clo')), 0))
        for i, x in enumerate(xs):
            cell = Cell(x, (intern_key((key, 'elem')), i))
            k = it.call_value(VRef(clo), [VRef(cell)], intern_key((key, 'pred', i)))
            if c.branch(k):
                out.append(cell.v)
        xs = out
    c.store(r.cell, r.path, c.seq_items(*xs))
    return UNIT


@rx(r'std::iter::Iterator>?::(max|min|sum|product|min_by_key|max_by_key|max_by|min_by)$|std::iter::DoubleEndedIterator>?::')
def m_iter_unsup(it, f, a, key, rt):
    raise Unsupported('iterator method %s' % f['path'])


@rx(r'size_hint$')
def m_size_hint(it, f, a, key, rt):
    raise Unsupported('size_hint')


# ---------------------------------------------------------------- String / str
@model('std::string::String::new', 'std::string::String::with_capacity')
def m_s_new(it, f, a, key, rt):
    return VStr(())


@model('std::string::String::push_str')
def m_push_str(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    it.c.store(r.cell, r.path, it.c.str_cat(s, as_str(it, a[1])))
    return UNIT


@model('std::string::String::push')
def m_push_char(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    it.c.store(r.cell, r.path, it.c.str_cat(s, char_str(it, a[1])))
    return UNIT


def char_str(it, ch):
    if not is_z(ch):
        return it.c.lit(chr(ch))
    raise Unsupported('symbolic character')


@model('std::string::String::insert')
def m_s_insert(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    if a[1] != 0 or is_z(a[1]):
        raise Unsupported('insert in the middle of a string')
    it.c.store(r.cell, r.path, it.c.str_cat(char_str(it, a[2]), s))
    return UNIT


@model('std::string::String::insert_str')
def m_s_insert_str(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    if is_z(a[1]) or a[1] != 0:
        raise Unsupported('insert in the middle of a string')
    it.c.store(r.cell, r.path, it.c.str_cat(as_str(it, a[2]), s))
    return UNIT


@model('std::string::String::clear')
def m_s_clear(it, f, a, key, rt):
    r, s = deepref(it, a[0])
    it.c.store(r.cell, r.path, VStr(()))
    return UNIT


@rx(r'^<std::string::String as std::ops::Add<&str>>::add$')
def m_s_add(it, f, a, key, rt):
    return it.c.str_cat(as_str(it, a[0]), as_str(it, a[1]))


@rx(r'^<std::string::String as std::ops::AddAssign<&str>>::add_assign$')
def m_s_add_assign(it, f, a, key, rt):
    return m_push_str(it, f, a, key, rt)


@model('std::string::String::len', 'core::str::<impl str>::len')
def m_s_len(it, f, a, key, rt):
    return it.c.str_len(as_str(it, a[0]))


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def m_s_is_empty(it, f, a, key, rt):
    return zeq(it.c.str_len(as_str(it, a[0])), 0)


@rx(r'^std::str::<impl std::slice::(Join<&str>|Concat<str>) for \[S\]>::|^std::slice::<impl \[T\]>::(join|concat)$|^std::str::join_generic_copy$')
def m_join(it, f, a, key, rt):
    s = as_seq(it, a[0])
    t = it.prog.ty(rt)
    if not it.prog.is_string(t):
        raise Unsupported('join of %s' % t['s'][:60])
    sep = as_str(it, a[1]) if len(a) > 1 else VStr(())
    out = VStr(())
    first = True
    for p in s.p:
        if p[0] != 'i':
            n = it.c.plen(p)
            if it.c.provable(zeq(n, 0)):
                continue
            raise Unsupported('join of an unknown number of pieces')
        for x in p[1]:
            if not first and sep.p:
                out = it.c.str_cat(out, sep)
            first = False
            out = it.c.str_cat(out, as_str(it, x))
    return out


def the_span(s):
    """A string that is exactly one span of the input text (or empty)."""
    if len(s.p) == 1 and s.p[0][0] == 't':
        return s.p[0]
    return None


def lit_of(s):
    if all(p[0] == 'l' for p in s.p):
        return b''.join(p[1] for p in s.p)
    return None


def boundary(it, p, off):
    """Is byte offset off (from the start of span p, itself at a boundary) a char boundary?"""
    c = it.c
    a = p[2]
    pos = zsimp(a + off)
    if zeq(pos, p[3]) is True or zeq(pos, a) is True:
        return True
    pe = pos if is_z(pos) else z3.IntVal(pos)
    c.axiom(('bnd0',), f_bound(z3.IntVal(0)), f_bound(TEXT_N))
    if not is_z(off) and off <= 64:
        k = ('bndto', a.get_id() if is_z(a) else a)
        done = c.memo.get(k, (0, a))[0]
        c.memo[k] = (max(done, off), a)
        for i in range(done, off):
            x = zsimp(a + i)
            x = x if is_z(x) else z3.IntVal(x)
            y = zsimp(a + i + 1)
            y = y if is_z(y) else z3.IntVal(y)
            b = c.tbyte(x)
            c.axiom(('bnd', x.get_id(), y.get_id()), z3.Implies(z3.And(f_bound(x), x < TEXT_N, b < 128), f_bound(y)))
            c.memo[('keepbnd', x.get_id())] = (x, y)
    return f_bound(pe)


def sub_span(it, p, x, y):
    return VStr((('t', p[1], zsimp(p[2] + x), zsimp(p[2] + y)),))


def str_slice(it, s, x, y, checked):
    """s[x..y]: the string or None when the documentation says it panics / returns None."""
    c = it.c
    n = c.str_len(s)
    l = lit_of(s)
    if l is not None and not is_z(x) and not is_z(y):
        if x <= y <= len(l):
            try:
                l[:x].decode()
                l[x:y].decode()
            except UnicodeDecodeError:
                return None
            return c.lit(l[x:y])
        return None
    p = the_span(s)
    if p is None:
        if zeq(x, 0) is True and zeq(y, n) is True:
            return s
        raise Unsupported('slicing %r' % (s,))
    cond = zand(zle(x, y), zle(y, n), z3b(boundary(it, p, x)), z3b(boundary(it, p, y)))
    if c.branch(cond):
        return sub_span(it, p, x, y)
    return None


def z3b(x):
    return x


@rx(r'^core::str::traits::<impl std::ops::Index<I> for str>::index$|^<std::string::String as std::ops::Index<I>>::index$')
def m_str_index(it, f, a, key, rt):
    s = as_str(it, a[0])
    x, y = range_of(it, a[1], it.c.str_len(s))
    r = str_slice(it, s, x, y, True)
    if r is None:
        raise Panic('string index out of range or inside a character')
    return r


@rx(r'^core::str::<impl str>::(get|get_unchecked)$')
def m_str_get(it, f, a, key, rt):
    s = as_str(it, a[0])
    x, y = range_of(it, a[1], it.c.str_len(s))
    r = str_slice(it, s, x, y, True)
    if f['path'].endswith('unchecked'):
        if r is None:
            raise Panic('get_unchecked outside the string')
        return r
    return none(it, rt) if r is None else some(it, rt, r)


@rx(r'^core::str::<impl str>::split_at(_checked|_unchecked)?$')
def m_str_split_at(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    n = c.str_len(s)
    l = str_slice(it, s, 0, a[1], True)
    tt = opt_arg(it, rt) if f['path'].endswith('_checked') else rt
    if l is None:
        if f['path'].endswith('_checked'):
            return none(it, rt)
        raise Panic('split_at outside the string or inside a character')
    r = str_slice(it, s, a[1], n, True)
    if r is None:
        raise Unsupported('split_at')
    v = VAgg(tt, 0, (l, r))
    return some(it, rt, v) if f['path'].endswith('_checked') else v


@rx(r'^core::str::<impl str>::is_char_boundary$')
def m_icb(it, f, a, key, rt):
    s = as_str(it, a[0])
    p = the_span(s)
    if p is None:
        raise Unsupported('is_char_boundary')
    return zand(zle(a[1], it.c.str_len(s)), boundary(it, p, a[1]))


@rx(r'^core::str::<impl str>::(as_bytes|bytes)$|^core::str::<impl std::convert::AsRef<\[u8\]> for str>::as_ref$|^std::string::String::as_bytes$|^std::string::String::into_bytes$')
def m_as_bytes(it, f, a, key, rt):
    return VOpaque('bytes', (as_str(it, a[0]),))


@rx(r'^core::str::<impl str>::chars$')
def m_chars(it, f, a, key, rt):
    return VIter('chars', as_str(it, a[0]))


def chars_next(it, cell, path, v):
    c = it.c
    l = lit_of(v.seq)
    if l is not None:
        s = l.decode()
        if not s:
            return None
        c.store(cell, path, VIter(v.kind, c.lit(s[1:])))
        return ord(s[0])
    p = the_span(v.seq)
    if p is None or v.kind != 'chars':
        raise Unsupported('characters of %r' % (v.seq,))
    if not c.branch(zsimp(p[2] < p[3]) if is_z(p[2]) or is_z(p[3]) else p[2] < p[3]):
        return None
    x = p[2] if is_z(p[2]) else z3.IntVal(p[2])
    ch, ln = f_char(x), f_clen(x)
    b = c.tbyte(x)
    c.axiom(('char', x.get_id()), ch >= 0, ch <= 0x10FFFF, ln >= 1, ln <= 4,
            z3.Implies(b < 128, z3.And(ch == b, ln == 1)), z3.Implies(b >= 128, z3.And(ch >= 128, ln >= 2)),
            f_bound(x + ln), x + ln <= p[3])
    c.memo[('keepc', x.get_id())] = x
    c.store(cell, path, VIter('chars', VStr((('t', p[1], zsimp(x + ln), p[3]),))))
    return ch


def pred_set(it, pat, key):
    """The characters a pattern accepts: (ascii set, accepts non-ASCII)."""
    c = it.c
    if isinstance(pat, int):
        if pat < 128:
            return (frozenset([pat]), False)
        raise Unsupported('search for a non-ASCII character')
    v = val(it, pat)
    if isinstance(v, VSeq):
        cs = []
        for p in v.p:
            if p[0] != 'i':
                raise Unsupported('pattern')
            cs += list(p[1])
        if all(isinstance(x, int) and x < 128 for x in cs):
            return (frozenset(cs), False)
        raise Unsupported('pattern')
    try:
        mk = (vkey(v, ids=False), key)
    except MergeFail:
        mk = None
    r = c.run.pred_memo.get(mk)
    if r is not None and mk is not None:
        return r
    # a predicate: its truth table over ASCII, and one symbolic non-ASCII character
    acc = set()
    for ch in range(128):
        x = it.call_value(pat, [ch], intern_key((key, 'pred')))
        if is_z(x):
            raise Unsupported('predicate depends on more than the character')
        if x:
            acc.add(ch)
    ch = z3.Int('nonascii!%d' % len(c.memo))
    c.axiom(('nonascii', ch.get_id()), ch >= 128, ch <= 0x10FFFF)
    c.pure = True
    pp = c.pure_path = PurePaths()
    alts = []
    try:
        while pp.work:
            pp.begin(pp.work.pop())
            x = it.call_value(pat, [ch], intern_key((key, 'pred')))
            alts.append(zand(*pp.conds, x))
            if len(alts) > 100:
                raise Unsupported('a predicate with many paths')
    finally:
        c.pure = False
        c.pure_path = None
    x = zor(*alts)
    if is_z(x):
        if c.provable(x):
            x = True
        elif c.provable(z3.Not(x)):
            x = False
        else:
            x = few(c, ch, x)
    r = (frozenset(acc), x if isinstance(x, tuple) else bool(x))
    if mk is not None:
        c.run.pred_memo[mk] = r
    return r


def few(c, ch, x):
    """The non-ASCII characters that satisfy x, when they are few, or all but few."""
    for kind, e in (('only', x), ('but', z3.Not(x))):
        got = []
        while len(got) <= 40:
            not_yet = [ch != g for g in got]
            if c.check(e, *not_yet) != z3.sat:
                return (kind, tuple(sorted(got)))
            got.append(c.solver.model().eval(ch, model_completion=True).as_long())
    raise Unsupported('predicate distinguishes many non-ASCII characters')


def set_not(st):
    non = st[1]
    return (frozenset(range(128)) - st[0], ('but' if non[0] == 'only' else 'only', non[1]) if isinstance(non, tuple) else not non)


WHITESPACE = (frozenset([9, 10, 11, 12, 13, 32]), ('only', tuple(sorted([0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000] + list(range(0x2000, 0x200b))))))


@rx(r'^(core|std)::char::methods::<impl char>::(is_whitespace|is_control)$')
def m_char_class(it, f, a, key, rt):
    ch = val(it, a[0])
    if f['path'].endswith('is_control'):
        return zor(zand(zle(0, ch), zle(ch, 31)), zand(zle(127, ch), zle(ch, 159)))
    return zor(*[zeq(ch, w) for w in sorted(WHITESPACE[0]) + list(WHITESPACE[1][1])])


@rx(r'^core::str::<impl str>::find$')
def m_find(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    if isinstance(val(it, a[1]), VStr):
        raise Unsupported('substring search')
    st = pred_set(it, a[1], key)
    comp = set_not(st)
    l = lit_of(s)
    if l is not None:
        for i, ch in enumerate(l):
            if ch >= 128:
                raise Unsupported('find in a non-ASCII literal')
            if ch in st[0]:
                return some(it, rt, i)
        return none(it, rt)
    p = the_span(s)
    if p is None:
        raise Unsupported('find in %r' % (s,))
    q = c.span(comp, p[2])
    if c.branch(zlt(q, p[3])):
        return some(it, rt, zsimp(q - p[2]))
    return none(it, rt)


TRIM = z3.Function('trim', SS, IS, SS)


@rx(r'^core::str::<impl str>::trim(_start|_end|_left|_right)?(_matches)?$')
def m_trim(it, f, a, key, rt):
    """trim and its relatives: exact over the input text and over literals, an unknown function of
    a text that is not known."""
    c = it.c
    s = as_str(it, a[0])
    nm = f['path'].rsplit('::', 1)[-1]
    front = nm in ('trim', 'trim_matches') or 'start' in nm or 'left' in nm
    back = nm in ('trim', 'trim_matches') or 'end' in nm or 'right' in nm
    if 'matches' in nm:
        if isinstance(val(it, a[1]), VStr):
            raise Unsupported('trimming of a substring')
        st = pred_set(it, a[1], key)
    else:
        st = WHITESPACE
    if not s.p:
        return s
    l = lit_of(s)
    if l is not None:
        cs = list(l.decode())
        while front and cs and char_in(st, cs[0]):
            cs.pop(0)
        while back and cs and char_in(st, cs[-1]):
            cs.pop()
        return c.lit(''.join(cs))
    p = the_span(s)
    if p is None:
        ids = c.memo.setdefault(('trim-ids',), {})
        k = ids.setdefault((front, back, st), len(ids))
        return VStr((('x', TRIM(c.str_term(s), z3.IntVal(k))),))
    x, y = p[2], p[3]
    if front:
        q = c.span(st, x)
        if c.branch(zle(y, q)):
            return VStr(())
        x = q
    if back:
        # the smallest position whose rest lies in the set
        q = c.fresh('rtrim')
        c.solver.add(q >= x, q <= y, z3.Implies(z3.And(f_bound(x if is_z(x) else z3.IntVal(x)), f_bound(y if is_z(y) else z3.IntVal(y))), f_bound(q)), c.span(st, q) >= y)
        last = []
        for n in range(1, 5):
            b = c.tbyte(zsimp(q - n))
            lead = [b < 128, z3.And(b >= 0xC0, b < 0xE0), z3.And(b >= 0xE0, b < 0xF0), b >= 0xF0][n - 1]
            last.append(z3.And(q - n >= x, f_bound(q - n), lead, z3.Not(c.in_set(st, zsimp(q - n)))))
        c.solver.add(z3.Or(q == x, *last))
        c.solver.add(z3.Implies(q == y, z3.BoolVal(True)))
        y = q
        if c.branch(zeq(x, y)):
            return VStr(())
    return VStr((('t', p[1], x, y),))


def char_in(st, ch):
    n = ord(ch)
    if n < 128:
        return n in st[0]
    if isinstance(st[1], tuple):
        return (n in st[1][1]) == (st[1][0] == 'only')
    return st[1]


def edge(s, pat, nm):
    """Does a text that begins (ends) with literal text begin (end) with the pattern? None: not known."""
    if pat and s.p and nm != 'contains':
        q = s.p[0 if nm == 'starts_with' else -1]
        if q[0] == 'l' and len(q[1]) >= len(pat):
            return q[1].startswith(pat) if nm == 'starts_with' else q[1].endswith(pat)
    return None


STR_TEST = z3.Function('strtest', SS, IS, z3.BoolSort())


@rx(r'^core::str::<impl str>::(starts_with|ends_with|contains)$')
def m_str_test(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    nm = f['path'].rsplit('::', 1)[-1]
    v = val(it, a[1])
    pat = lit_of(v) if isinstance(v, VStr) else None
    if isinstance(v, VStr) and pat is None:
        raise Unsupported('%s of an unknown text' % nm)
    st = pred_set(it, a[1], key) if pat is None else None
    l = lit_of(s)

    def holds(t):
        if pat is not None:
            return t.startswith(pat) if nm == 'starts_with' else t.endswith(pat) if nm == 'ends_with' else pat in t
        cs = t.decode()
        return any(char_in(st, x) for x in (cs[:1] if nm == 'starts_with' else cs[-1:] if nm == 'ends_with' else cs))
    if l is not None:
        return holds(l)
    p = the_span(s)
    if p is not None:
        n = zsimp(p[3] - p[2])
        if pat is not None and nm != 'contains':
            if not pat:
                return True
            a0 = p[2] if nm == 'starts_with' else zsimp(p[3] - len(pat))
            return zand(zle(len(pat), n), *[zeq(c.tbyte(zsimp(a0 + i)), b) for i, b in enumerate(pat)])
        if pat is None and nm == 'starts_with':
            return zand(zlt(p[2], p[3]), c.in_set(st, p[2]))
        if pat is None and nm == 'contains':
            return zlt(c.span(set_not(st), p[2]), p[3])
        raise Unsupported('%s in a text' % nm)
    e = edge(s, pat, nm)
    if e is not None:
        return e
    # a text that is not known: an unknown test of it, right for the literals in use
    ids = c.memo.setdefault(('strtest-ids',), {})
    k = ids.setdefault((nm, pat, st), len(ids))
    t = c.str_term(s)
    r = STR_TEST(t, z3.IntVal(k))
    c.memo[('keepn', t.get_id(), k)] = r
    for b, lt in list(c.lits.items()):
        c.axiom(('strtest', lt.get_id(), k), STR_TEST(lt, z3.IntVal(k)) if holds(b) else z3.Not(STR_TEST(lt, z3.IntVal(k))))
    return r


CHANGED = z3.Function('changed', SS, IS, SS)


def changed(c, s, what):
    """An unknown text that is not the given one: what a replacement or a cut made of it."""
    ids = c.memo.setdefault(('changed-ids',), {})
    k = ids.setdefault(what, len(ids))
    t = c.str_term(s)
    r = CHANGED(t, z3.IntVal(k))
    c.memo[('keepch', t.get_id(), k)] = r
    c.axiom(('changed', t.get_id(), k), r != t)
    return VStr((('x', r),))


@rx(r'^(core|std|alloc)::str::<impl str>::(strip_prefix|strip_suffix|replace|replacen)$')
def m_strip(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    nm = f['path'].rsplit('::', 1)[-1]
    v = val(it, a[1])
    pat = lit_of(v) if isinstance(v, VStr) else chr(v).encode() if isinstance(v, int) and not isinstance(v, bool) else None
    if not pat:
        raise Unsupported('%s with such a pattern' % nm)
    pv = c.lit(pat.decode())
    test = {'strip_prefix': 'starts_with', 'strip_suffix': 'ends_with'}.get(nm, 'contains')
    l = lit_of(s)
    if nm.startswith('replace'):
        rep = lit_of(as_str(it, a[2]))
        if rep is None:
            raise Unsupported('replacement by an unknown text')
        n = a[3] if nm == 'replacen' else -1
        if l is not None and not is_z(n):
            return c.lit(l.decode().replace(pat.decode(), rep.decode(), n))
        if is_z(n) or n == 0 or pat == rep:
            raise Unsupported('such a replacement')
        if not c.branch(m_str_test(it, dict(f, path='contains'), [s, pv], key, None)):
            return s
        if the_span(s) is not None:
            raise Unsupported('replacement in the text')
        return changed(c, s, (nm, pat, rep, n))
    if not c.branch(m_str_test(it, dict(f, path=test), [s, pv], key, None)):
        return none(it, rt)
    if l is not None:
        return some(it, rt, c.lit((l[len(pat):] if nm == 'strip_prefix' else l[:len(l) - len(pat)]).decode()))
    p = the_span(s)
    if edge(s, pat, test):
        q = s.p[0 if test == 'starts_with' else -1][1]
        if nm == 'strip_prefix':
            return some(it, rt, c.str_cat(c.lit(q[len(pat):].decode()), VStr(s.p[1:])))
        return some(it, rt, c.str_cat(VStr(s.p[:-1]), c.lit(q[:len(q) - len(pat)].decode())))
    if p is None:
        return some(it, rt, changed(c, s, (nm, pat)))
    if nm == 'strip_prefix':
        return some(it, rt, VStr((('t', p[1], zsimp(p[2] + len(pat)), p[3]),)))
    return some(it, rt, VStr((('t', p[1], p[2], zsimp(p[3] - len(pat))),)))


@rx(r'^(std|core|alloc)::str::<impl str>::(to_uppercase|to_ascii_uppercase)$')
def m_upper(it, f, a, key, rt):
    s = as_str(it, a[0])
    l = lit_of(s)
    if l is not None:
        return it.c.lit(l.decode().upper())
    return VStr((('cs', s.p, True, 'ascii' in f['path']),))


@rx(r'^(std|core|alloc)::str::<impl str>::(to_lowercase|to_ascii_lowercase)$')
def m_lower(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    l = lit_of(s)
    if l is not None:
        return c.lit(l.decode().lower())
    p = the_span(s)
    if p is None:
        return VStr((('cs', s.p, False, 'ascii' in f['path']),))
    if 'ascii' not in f['path']:
        n = c.str_len(s)
        if is_z(n):
            return VStr((('cs', s.p, False, False),))
        for i in range(n):
            if not c.provable(c.tbyte(zsimp(p[2] + i)) < 128):
                return VStr((('cs', s.p, False, False),))
    return VStr((('lo', p),))


@rx(r'eq_ignore_ascii_case$')
def m_eic(it, f, a, key, rt):
    c = it.c
    x, y = val(it, a[0]), val(it, a[1])
    if isinstance(x, VOpaque) and isinstance(y, VOpaque):
        x, y = x.f[0], y.f[0]
    if not isinstance(x, VStr) or not isinstance(y, VStr):
        raise Unsupported('eq_ignore_ascii_case')
    return eic(c, x, y)


def eic(c, x, y):
    if lit_of(x) is not None and lit_of(y) is not None:
        return lit_of(x).decode().lower() == lit_of(y).decode().lower() if True else None
    if lit_of(x) is not None:
        x, y = y, x
    l = lit_of(y)
    if l is None:
        if the_span(x) is not None or the_span(y) is not None:
            raise Unsupported('eq_ignore_ascii_case of two texts')
        tx, ty = c.str_term(x), c.str_term(y)
        fn = z3.Function('same_nocase', SS, SS, z3.BoolSort())
        c.memo[('keepsn', tx.get_id(), ty.get_id())] = (tx, ty)
        c.axiom(('samenocase', tx.get_id(), ty.get_id()), z3.Implies(tx == ty, fn(tx, ty)), fn(tx, ty) == fn(ty, tx))
        return fn(tx, ty)
    p = the_span(x)
    if p is not None:
        return c.span_is(p, l, True)
    if not x.p:
        return len(l) == 0
    # an opaque string: an uninterpreted predicate per lowercase literal
    t = c.str_term(x)
    low = l.decode().lower()
    fn = z3.Function('iseq_nocase', SS, IS, z3.BoolSort())
    ids = c.memo.setdefault(('nocase-ids',), {})
    k = ids.setdefault(low, len(ids))
    r = fn(t, z3.IntVal(k))
    for o, ko in ids.items():
        if o != low:
            c.axiom(('nocase', t.get_id(), k, ko), z3.Not(z3.And(r, fn(t, z3.IntVal(ko)))))
    c.memo[('keepn', t.get_id())] = t
    return r


# ---- number literals ------------------------------------------------------
DIGITS = (frozenset(range(48, 58)), False)


def classify(it, s):
    """Split a numeric string into classes: list of ('d', piece) | ('c', byte, piece)."""
    c = it.c
    out = []
    for p in s.p:
        if p[0] == 'l':
            for ch in p[1]:
                if 48 <= ch <= 57:
                    out.append(('d', ('l', bytes([ch]))))
                else:
                    out.append(('c', ch))
            continue
        if p[0] != 't':
            raise Unsupported('number in %r' % (s,))
        a, b = p[2], p[3]
        n = 0
        while not c.provable(zeq(a, b)):
            n += 1
            q = c.span(DIGITS, a)
            if n > 8:
                raise Unsupported('number in %r' % (s,))
            if c.provable(zsimp(q > a)):
                if c.provable(zsimp(q <= b)):
                    out.append(('d', ('t', p[1], a, q)))
                    a = q
                    continue
                bt = c.tbyte(a)
                if c.provable(zsimp(b - a == 1)):
                    out.append(('d', ('t', p[1], a, b)))
                    break
                raise Unsupported('number in %r' % (s,))
            if not c.provable(zsimp(a < b)):
                raise Unsupported('number in %r' % (s,))
            bt = c.tbyte(a)
            for ch in (43, 45, 46):
                if c.provable(bt == ch):
                    out.append(('c', ch))
                    break
            else:
                if not c.provable(z3.Or(bt == 101, bt == 69)):
                    raise Unsupported('number in %r' % (s,))
                out.append(('c', 101))
            a = zsimp(a + 1)
    # join digits
    r = []
    for x in out:
        if x[0] == 'd' and r and r[-1][0] == 'd':
            r[-1] = ('d', r[-1][1] + [x[1]])
        else:
            r.append(('d', [x[1]]) if x[0] == 'd' else x)
    return r


def digits_term(it, d):
    """The digit text as one string term."""
    return it.c.str_term(it.c.str_cat(*[VStr((p,)) for p in d])) if d else it.c.piece_term(('l', b''))


def dval(it, d):
    """Integer value of a digit text."""
    c = it.c
    d = it.c.str_cat(*[VStr((p,)) for p in d]).p
    if len(d) == 1 and d[0][0] == 'l':
        return int(d[0][1])
    if len(d) == 1 and d[0][0] == 't':
        a, b = d[0][2], d[0][3]
        v = f_digits(a if is_z(a) else z3.IntVal(a), b if is_z(b) else z3.IntVal(b))
        c.axiom(('dig', v.get_id()), v >= 0)
        c.memo[('keepd', v.get_id())] = v
        return v
    raise Unsupported('value of several digit texts')


@rx(r'^core::str::<impl str>::parse$|FromStr for (i32|f32|u32|i64|u64|usize)>::from_str$')
def m_parse(it, f, a, key, rt):
    c = it.c
    s = as_str(it, a[0])
    okt = str(it.prog.ty(rt)['args'][0]['ty'])
    t = it.prog.ty(okt)
    errv = VOpaque(('parse-error', key))
    if t['k'] in ('int', 'uint'):
        cl = classify(it, s)
        neg = False
        if cl and cl[0][0] == 'c':
            if cl[0][1] == 45 and t['k'] == 'int':
                neg = True
            elif cl[0][1] != 43:
                return err(it, rt, errv)
            cl = cl[1:]
        if len(cl) != 1 or cl[0][0] != 'd':
            return err(it, rt, errv)
        v = dval(it, cl[0][1])
        lo, hi = int_range(t)
        if neg:
            v = zsimp(-v)
        if c.branch(zand(zle(lo, v), zle(v, hi))):
            return ok(it, rt, v)
        return err(it, rt, errv)
    if t['k'] == 'float':
        import interp
        cl = classify(it, s)
        neg = False
        if cl and cl[0][0] == 'c' and cl[0][1] in (43, 45):
            neg = cl[0][1] == 45
            cl = cl[1:]
        ip, fp, es, ep = [], [], 0, []
        if cl and cl[0][0] == 'd':
            ip = cl[0][1]
            cl = cl[1:]
        if cl and cl[0] == ('c', 46):
            cl = cl[1:]
            if cl and cl[0][0] == 'd':
                fp = cl[0][1]
                cl = cl[1:]
        if not ip and not fp:
            return err(it, rt, errv)
        if cl and cl[0] == ('c', 101):
            cl = cl[1:]
            es = 1
            if cl and cl[0][0] == 'c' and cl[0][1] in (43, 45):
                es = 1 if cl[0][1] == 43 else -1
                cl = cl[1:]
            if not cl or cl[0][0] != 'd':
                return err(it, rt, errv)
            ep = cl[0][1]
            cl = cl[1:]
        if cl:
            return err(it, rt, errv)
        v = dec_value(it, ip, fp, es, ep)
        return ok(it, rt, interp.fneg(v) if neg else v)
    raise Unsupported('parse::<%s>' % t['s'])


def dec_value(it, ip, fp, es, ep):
    return f_dec(digits_term(it, ip), digits_term(it, fp), z3.IntVal(es), digits_term(it, ep))


# ---- nom comparisons ------------------------------------------------------
@rx(r'^<&\'a str as nom::Compare<&\'b str>>::(compare|compare_no_case)$')
def m_nom_compare(it, f, a, key, rt):
    c = it.c
    s, tag = as_str(it, a[0]), lit_of(as_str(it, a[1]))
    nocase = f['path'].endswith('no_case')
    if tag is None:
        raise Unsupported('comparison with a computed tag')
    if it.prog.streaming():
        raise Unsupported('streaming parser')
    t = it.prog.ty(rt)
    names = [v['n'] for v in t['vs']]
    if sorted(names) != ['Error', 'Incomplete', 'Ok']:
        raise Unsupported('nom::CompareResult')
    if any(b >= 128 for b in tag):
        raise Unsupported('non-ASCII tag')
    if nocase:
        low = tag.decode().lower()
        c.run.oblig('call of compare_no_case/tag-safe')
        if 'k' in low or low.endswith('i'):
            c.run.fail(c, 'call of compare_no_case/tag-safe', 'refuted' if c.check() == z3.sat else 'unknown',
                       'nom lowercases characters such as U+212A to ASCII and then splits at the byte length of the tag %r' % low, None)
        else:
            c.run.ok('call of compare_no_case/tag-safe')
            c.reached('call of compare_no_case/tag-safe')
    p = the_span(s)
    if p is None:
        l = lit_of(s)
        if l is None:
            raise Unsupported('compare of %r' % (s,))
        x, y = (l.lower(), tag.lower()) if nocase else (l, tag)
        good = x.startswith(y)
    else:
        n = zsimp(p[3] - p[2])
        good = zand(zle(len(tag), n), *[c.byte_is(c.tbyte(zsimp(p[2] + i)), b, nocase) for i, b in enumerate(tag)])
        if p is not None and good is not False:
            boundary(it, p, len(tag))
    r = names.index('Ok') if c.branch(good) else names.index('Error')
    return VAgg(rt, r, ())


# ---------------------------------------------------------------- HashMap
@rx(r'^std::collections::HashMap::<K, V>::(new|with_capacity)$')
def m_map_new(it, f, a, key, rt):
    return default_value(it, rt, key)


@rx(r'^std::collections::HashMap::<K, V, S(, A)?>::entry$')
def m_entry(it, f, a, key, rt):
    r, m = deepref(it, a[0])
    return VEntry(r, as_str(it, a[1]))


def entry_ref(e):
    return VRef(e.ref.cell, e.ref.path + (('k', e.key),))


@rx(r'^std::collections::hash_map::Entry::<.*>::(or_default|or_insert|or_insert_with|and_modify|or_insert_with_key|key)$')
def m_or_default(it, f, a, key, rt):
    c = it.c
    e = a[0]
    if not isinstance(e, VEntry):
        raise Unsupported('entry')
    what = f['path'].split('::')[-1]
    m = c.load(e.ref.cell, e.ref.path)
    cur = c.map_get(m, e.key)
    if what == 'and_modify':
        if cur is not None:
            it.call_value(a[1], [entry_ref(e)], intern_key((key, 'am')))
        return e
    if what == 'key':
        return VRef(Cell(e.key, ('key', key)))
    if cur is None:
        if what == 'or_default':
            v = default_value(it, str(it.prog.ty(rt)['e']), key)
        elif what == 'or_insert':
            v = a[1]
        elif what == 'or_insert_with':
            v = it.call_value(a[1], [], intern_key((key, 'oi')))
        else:
            raise Unsupported(what)
        c.store(e.ref.cell, e.ref.path, c.map_put(c.load(e.ref.cell, e.ref.path), e.key, v))
    return entry_ref(e)


@rx(r'^std::collections::HashMap::<K, V, S(, A)?>::(insert)$')
def m_map_insert(it, f, a, key, rt):
    c = it.c
    r, m = deepref(it, a[0])
    k = as_str(it, a[1])
    cur = c.map_get(m, k)
    c.store(r.cell, r.path, c.map_put(c.load(r.cell, r.path), k, a[2]))
    return none(it, rt) if cur is None else some(it, rt, cur)


@rx(r'^std::collections::HashMap::<K, V, S(, A)?>::(get|get_mut|contains_key)$')
def m_map_get(it, f, a, key, rt):
    c = it.c
    r, m = deepref(it, a[0])
    k = as_str(it, a[1])
    cur = c.map_get(m, k)
    if f['path'].endswith('contains_key'):
        return cur is not None
    if cur is None:
        return none(it, rt)
    return some(it, rt, VRef(r.cell, r.path + (('k', k),)))


@rx(r'^std::collections::HashMap::<|^<std::collections::HashMap|^hashbrown|^<hashbrown')
def m_map_unsup(it, f, a, key, rt):
    raise Unsupported('map operation %s' % f['path'])


# ---------------------------------------------------------------- numbers
@rx(r'(?<!impl f32>)::clamp$')
def m_clamp(it, f, a, key, rt):
    t = it.prog.ty(rt)
    if t['k'] not in ('int', 'uint'):
        raise Unsupported('clamp of %s' % t['s'])
    x, lo, hi = a
    if not is_z(lo) and not is_z(hi) and lo > hi:
        raise Panic('clamp with min > max')
    if is_z(lo) or is_z(hi):
        raise Unsupported('clamp with symbolic bounds')
    if not is_z(x):
        return max(lo, min(hi, x))
    return zsimp(z3.If(x < lo, z3.IntVal(lo), z3.If(x > hi, z3.IntVal(hi), x)))


@rx(r'cmp::Ord(>| for \w+>)?::(min|max)$|^std::cmp::(min|max)$')
def m_minmax(it, f, a, key, rt):
    t = it.prog.ty(rt)
    if t['k'] not in ('int', 'uint'):
        raise Unsupported('min/max of %s' % t['s'])
    x, y = a
    if not is_z(x) and not is_z(y):
        return min(x, y) if f['path'].endswith('min') else max(x, y)
    return zsimp(z3.If(x <= y, zi(x), zi(y)) if f['path'].endswith('min') else z3.If(x >= y, zi(x), zi(y)))


def zi(x):
    return x if is_z(x) else z3.IntVal(x)


@rx(r'^core::num::<impl \w+>::(wrapping_add|wrapping_sub|saturating_sub|saturating_add|checked_add|checked_sub|wrapping_mul|saturating_mul|checked_mul)$')
def m_num(it, f, a, key, rt):
    what = f['path'].split('::')[-1]
    x, y = a
    t = it.prog.ty(rt)
    if what.startswith('checked'):
        t = it.prog.ty(opt_arg(it, rt))
    lo, hi = int_range(t)
    r = zsimp(x + y) if what.endswith('add') else zsimp(x - y) if what.endswith('sub') else zsimp(x * y)
    inr = zand(zle(lo, r), zle(r, hi))
    if it.c.branch(inr):
        return some(it, rt, r) if what.startswith('checked') else r
    if what.startswith('checked'):
        return none(it, rt)
    if what.startswith('saturating'):
        return hi if it.c.branch(zlt(hi, r)) else lo
    m = hi - lo + 1
    return zsimp((r - lo) % m + lo)


INTS = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-(1 << 15), (1 << 15) - 1), 'u16': (0, (1 << 16) - 1), 'i32': (-(1 << 31), (1 << 31) - 1),
        'u32': (0, (1 << 32) - 1), 'i64': (-(1 << 63), (1 << 63) - 1), 'u64': (0, (1 << 64) - 1), 'isize': (-(1 << 63), (1 << 63) - 1),
        'usize': (0, (1 << 64) - 1), 'i128': (-(1 << 127), (1 << 127) - 1), 'u128': (0, (1 << 128) - 1)}


def width(ty):
    lo, hi = INTS[ty]
    return (hi - lo).bit_length(), lo < 0


def bits(ty, fn, *xs):
    """A bit operation on integers, over their two's complement."""
    w, signed = width(ty)
    vs = [z3.Int2BV(zi(x), w) for x in xs]
    return zsimp(z3.BV2Int(fn(*vs), signed))


@rx(r'^core::num::<impl [iu]\w+>::(saturating_abs|wrapping_abs|checked_abs|abs|signum|unsigned_abs|checked_neg|wrapping_neg|saturating_neg|is_negative|is_positive|'
    r'abs_diff|pow|checked_pow|saturating_pow|wrapping_pow|rem_euclid|div_euclid|count_ones|count_zeros|leading_zeros|trailing_zeros|leading_ones|trailing_ones|is_power_of_two|'
    r'next_power_of_two|checked_div|checked_rem|wrapping_div|wrapping_rem|swap_bytes|reverse_bits)$')
def m_int(it, f, a, key, rt):
    c = it.c
    what = f['path'].split('::')[-1]
    ty = re.search(r'<impl (\w+)>', f['path']).group(1)
    lo, hi = INTS[ty]
    w, signed = width(ty)
    x = a[0]

    def ite(p, y, z):
        if isinstance(p, bool):
            return y if p else z
        return zsimp(z3.If(p, zi(y), zi(z)))

    def neg(y):
        return zsimp(-y) if is_z(y) else -y

    def fit(r, how):
        inr = zand(zle(lo, r), zle(r, hi))
        if how == 'checked':
            return some(it, rt, r) if c.branch(inr) else none(it, rt)
        if how == 'saturating':
            return ite(zlt(hi, r), hi, ite(zlt(r, lo), lo, r))
        if how == 'wrapping':
            return zsimp((r - lo) % (hi - lo + 1) + lo) if is_z(r) else (r - lo) % (hi - lo + 1) + lo
        if not c.branch(inr):
            raise Panic('attempt to %s with overflow' % what)
        return r
    how, _, base = what.partition('_') if what.split('_')[0] in ('saturating', 'wrapping', 'checked') else ('', '', what)
    if base == 'abs':
        return fit(ite(zlt(x, 0), neg(x), x), how)
    if base == 'neg':
        return fit(neg(x), how)
    if what == 'unsigned_abs':
        return ite(zlt(x, 0), neg(x), x)
    if what == 'signum':
        return ite(zlt(x, 0), -1, ite(zlt(0, x), 1, 0))
    if what == 'is_negative':
        return zlt(x, 0)
    if what == 'is_positive':
        return zlt(0, x)
    if what == 'abs_diff':
        return ite(zlt(x, a[1]), zsimp(a[1] - x), zsimp(x - a[1]))
    if base == 'pow':
        n = a[1]
        if is_z(n):
            lim = 0
            if is_z(x):
                raise Unsupported('a power of unknown numbers')
            while lim < 140 and lo <= x ** lim <= hi and abs(x) > 1:
                lim += 1
            for k in range(lim):
                if c.branch(zeq(n, k)):
                    return some(it, rt, x ** k) if how == 'checked' else x ** k
            if how == 'checked' and abs(x) > 1:
                return none(it, rt)
            if how == '' and abs(x) > 1:
                raise Panic('attempt to multiply with overflow')
            raise Unsupported('a power of unknown numbers')
        if n > 16 and is_z(x):
            raise Unsupported('a large power')
        r = 1
        for _ in range(n):
            r = zsimp(r * x)
        return fit(r, how)
    if base in ('rem_euclid', 'div_euclid', 'div', 'rem'):
        d = a[1]
        if is_z(d):
            raise Unsupported('division by an unknown number')
        if d == 0:
            if how == 'checked':
                return none(it, rt)
            raise Panic('attempt to divide by zero')
        if is_z(x):
            m = z3.IntVal(abs(d))
            if base == 'rem_euclid':
                return zsimp(x % m)
            q = x / m if base == 'div_euclid' else z3.If(x >= 0, x / m, -(-x / m))
            if base == 'rem':
                r = zsimp(z3.If(x >= 0, x % m, -(-x % m)))
                return some(it, rt, r) if how == 'checked' else r
            q = zsimp(q if d > 0 else -q)
        else:
            q = x // abs(d)
            if base == 'rem_euclid':
                return x - q * abs(d)
            if base != 'div_euclid' and x < 0:
                q = -(-x // abs(d))
            if base == 'rem':
                r = x - q * abs(d)
                return some(it, rt, r) if how == 'checked' else r
            q = q if d > 0 else -q
        return fit(q, how)
    # the bits one by one
    if is_z(x):
        b = [zeq(zsimp((x / z3.IntVal(1 << k)) % 2), 1) for k in range(w)]
    else:
        b = [bool(x >> k & 1) for k in range(w)]

    def run_of(bs, v):
        r = w
        for k in reversed(range(w)):
            r = ite(bs[k] if v else znot(bs[k]), r, k)
        return r
    if what in ('count_ones', 'count_zeros', 'is_power_of_two'):
        n = 0
        for y in b:
            n = zsimp(n + ite(y, 1, 0))
        return n if what == 'count_ones' else zsimp(w - n) if what == 'count_zeros' else zeq(n, 1)
    if what.startswith('trailing'):
        return run_of(b, what.endswith('ones'))
    if what.startswith('leading'):
        return run_of(b[::-1], what.endswith('ones'))
    raise Unsupported('integer function %s' % what)


@rx(r'^std::convert::num::(\w+::)*<impl std::convert::(From|TryFrom)<\w+> for \w+>::(try_)?from$')
def m_num_from(it, f, a, key, rt):
    import interp
    m = re.search(r'(From|TryFrom)<(\w+)> for (\w+)>', f['path'])
    how, src, dst = m.groups()
    v = a[0]
    if src == 'bool' and dst in INTS:
        return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if how == 'From' and src in INTS and dst in INTS:
        return v
    if how == 'From' and src in INTS and dst == 'f32':
        return interp.i2f(v)
    if how == 'TryFrom' and src in INTS and dst in INTS:
        lo, hi = INTS[dst]
        if it.c.branch(zand(zle(lo, v), zle(v, hi))):
            return ok(it, rt, v)
        return err(it, rt, VOpaque(('conversion-error',)))
    raise Unsupported('numeric conversion %s' % f['path'])


@rx(r'^(core::f32|std::f32|core::num)::(\w+::)*<impl f32>::\w+$')
def m_f32(it, f, a, key, rt):
    import interp
    c = it.c
    what = f['path'].split('::')[-1]
    x = a[0]
    if interp.arithmetic(x) or len(a) > 1 and any(is_z(y) and y.sort() == FS and interp.arithmetic(y) for y in a[1:]):
        raise Unsupported('%s of a computed float' % what)
    zero = interp.fconst(0)
    if what == 'is_nan':
        return False
    if what in ('is_subnormal', 'is_normal'):
        v = interp.fval(c, x)
        tiny = z3.RealVal('1/%d' % (1 << 126))
        near = z3.And(v < tiny, v > -tiny)
        return zsimp(z3.And(near, v != 0) if what == 'is_subnormal' else z3.And(z3.Not(near), v < interp.BIG, v > -interp.BIG))
    if what in ('is_sign_negative', 'is_sign_positive'):
        if c.branch(interp.fcmp(c, 'Eq', x, zero)):
            raise Unsupported('the sign of a zero')
        r = interp.fcmp(c, 'Lt', x, zero)
        return r if what == 'is_sign_negative' else znot(r)
    if what in ('is_finite', 'is_infinite'):
        v = interp.fval(c, x)
        r = zsimp(z3.And(v < interp.BIG, v > -interp.BIG))
        return r if what == 'is_finite' else znot(r)
    if what == 'abs':
        if c.branch(interp.fcmp(c, 'Eq', x, zero)):
            return zero
        return interp.fneg(x) if c.branch(interp.fcmp(c, 'Lt', x, zero)) else x
    if what in ('max', 'min'):
        less = c.branch(interp.fcmp(c, 'Lt', x, a[1]))
        return (a[1] if less else x) if what == 'max' else (x if less else a[1])
    if what == 'clamp':
        if c.branch(interp.fcmp(c, 'Gt', a[1], a[2])):
            raise Panic('clamp with min > max')
        if c.branch(interp.fcmp(c, 'Lt', x, a[1])):
            return a[1]
        return a[2] if c.branch(interp.fcmp(c, 'Gt', x, a[2])) else x
    raise Unsupported('float function %s' % what)
