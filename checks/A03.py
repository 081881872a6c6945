"""A03: calls and virtual pointers only read the tables, in a bounded number of accesses."""
import vlib
from vlib import *
import re, flow

HEAD = r'''
#include <smart.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
using namespace omv;
namespace pol = bom::policies;
using bom::virtual_; using bom::virtual_ptr;
// a map, whose look-up is opaque, and whose modification is an event
extern "C" { const void* omv_lookup(const void*, const void*) __attribute__((pure, nothrow)); void* omv_modify(const void*); }
struct mapfn {
    template<class K, class V> struct fn {
        using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
        typedef const value_type* const_iterator; typedef value_type* iterator;
        const_iterator find(const K& k) const { return (const_iterator) omv_lookup(this, (const void*) k); }
        iterator find(const K& k) { return (iterator) omv_lookup(this, (const void*) k); }
        const_iterator end() const { return nullptr; } iterator end() { return nullptr; }
        const_iterator cend() const { return nullptr; }
        const V& at(const K& k) const { return find(k)->second; } V& at(const K& k) { return find(k)->second; }
        std::size_t count(const K& k) const { return find(k) != nullptr; } std::size_t size() const { return omv_lookup(this, nullptr) != nullptr; }
        bool empty() const { return omv_lookup(this, nullptr) != nullptr; }
        V& operator[](const K&) { return *(V*) omv_modify(this); }
        template<class... A> std::pair<iterator, bool> emplace(A&&...) { return {(iterator) omv_modify(this), true}; }
        template<class... A> std::pair<iterator, bool> try_emplace(A&&...) { return {(iterator) omv_modify(this), true}; }
        template<class... A> std::pair<iterator, bool> insert_or_assign(A&&...) { return {(iterator) omv_modify(this), true}; }
        std::pair<iterator, bool> insert(const value_type&) { return {(iterator) omv_modify(this), true}; }
        void clear() { omv_modify(this); } void reserve(std::size_t) { omv_modify(this); } void swap(fn&) { omv_modify(this); }
        void erase(const K&) { omv_modify(this); }
    };
};
extern "C" { [[noreturn]] void err_report() noexcept; }
struct failing : pol::error_handler { template<class Registry> struct fn { template<class E> static void error(const E&) { err_report(); } }; };
struct R_vector : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, failing> {};
struct R_indirect : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, failing, pol::indirect_vptr> {};
struct R_checked : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, failing, pol::runtime_checks> {};
struct R_checked_indirect : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, failing, pol::runtime_checks, pol::indirect_vptr> {};
struct R_map : bom::registry<pol::std_rtti, pol::vptr_map<mapfn>, failing> {};
struct R_checked_map : bom::registry<pol::std_rtti, pol::vptr_map<mapfn>, failing, pol::runtime_checks> {};
struct R_indirect_map : bom::registry<pol::std_rtti, pol::vptr_map<mapfn>, failing, pol::indirect_vptr> {};
struct R_unhashed : bom::registry<omv::rtti, pol::vptr_vector, failing> {};
struct R_quiet : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::runtime_checks> {};
struct animal { virtual ~animal(); int a; }; struct dog : animal { int d; }; struct cat : virtual animal { int c; };
struct other { virtual ~other(); int o; }; struct hybrid : other, animal { int h; };
'''
BODY = r'''
namespace N_@ {
using R = R_@;
template<int> struct id;
using c1 = bom::method<id<1>, int(virtual_<animal&>), R>;
using c2 = bom::method<id<2>, int(int, virtual_<const animal&>, virtual_ptr<animal, R>, double), R>;
using c3 = bom::method<id<3>, void(virtual_ptr<animal, R>, virtual_<other&>, virtual_<animal&&>), R>;
using c4 = bom::method<id<4>, int(virtual_<animal*>, virtual_ptr<other, R>, const virtual_ptr<animal, R>&, virtual_<other&>), R>;
using c5 = bom::method<id<5>, int(virtual_ptr<sp<animal>, R>, const virtual_ptr<sp<animal>, R>&), R>;
using c6 = bom::method<id<6>, int(virtual_ptr<animal, R>, std::size_t), R>;
struct spot : bom::inplace_vptr_base<spot, R> { virtual ~spot(); int s; };
struct mark : spot, bom::inplace_vptr_derived<mark, spot> { int m; };
using c7 = bom::method<id<7>, int(virtual_<spot&>, virtual_ptr<spot, R>), R>;
extern "C" {
int call_1_@(animal& a) { return c1::fn(a); }
int call_2_@(int i, const animal& a, virtual_ptr<animal, R> p, double d) { return c2::fn(i, a, p, d); }
void call_3_@(virtual_ptr<animal, R> p, other& o, animal& a) { c3::fn(p, o, std::move(a)); }
int call_4_@(animal* a, virtual_ptr<other, R> p, const virtual_ptr<animal, R>& q, other& o) { return c4::fn(a, p, q, o); }
int call_5_@(const virtual_ptr<sp<animal>, R>& p) { return c5::fn(p, p); }
int call_6_@(virtual_ptr<animal, R> p) { return c6::fn(p, 3); }
int call_7_@(spot& s, virtual_ptr<spot, R> p) { return c7::fn(s, p); }
// an argument that is not a virtual_ptr yet
int call_8_@(dog& d) { return c6::fn(d, 3); }
int call_9_@(mark& d) { return c7::fn(d, d); }
virtual_ptr<animal, R> make_ref_@(animal& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<animal, R> make_derived_@(dog& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<animal, R> make_virtual_@(cat& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<animal, R> make_second_@(hybrid& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<const animal, R> make_const_@(const animal& a) { return virtual_ptr<const animal, R>(a); }
virtual_ptr<animal, R> make_pointer_@(animal* a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<animal, R> make_null_@() { return virtual_ptr<animal, R>(nullptr); }
virtual_ptr<animal, R> make_copy_@(const virtual_ptr<dog, R>& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<dog, R> make_cast_@(const virtual_ptr<animal, R>& a) { return a.template cast<dog>(); }
virtual_ptr<animal, R> make_final_@(dog& a) { return bom::final_virtual_ptr<R>(a); }
virtual_ptr<animal, R> make_smart_@(const virtual_ptr<sp<animal>, R>& a) { return virtual_ptr<animal, R>(a); }
virtual_ptr<sp<animal>, R> make_shared_@(const sp<dog>& a) { return virtual_ptr<sp<animal>, R>(a); }
virtual_ptr<sp<animal>, R> make_share_@(const virtual_ptr<sp<dog>, R>& a) { return virtual_ptr<sp<animal>, R>(a); }
virtual_ptr<spot, R> make_spot_@(spot& a) { return virtual_ptr<spot, R>(a); }
void assign_ref_@(virtual_ptr<animal, R>& p, animal& a) { p = a; }
void assign_derived_@(virtual_ptr<animal, R>& p, dog& a) { p = a; }
void assign_copy_@(virtual_ptr<animal, R>& p, const virtual_ptr<dog, R>& q) { p = q; }
void assign_null_@(virtual_ptr<animal, R>& p) { p = nullptr; }
void assign_shared_@(virtual_ptr<sp<animal>, R>& p, const sp<dog>& a) { p = a; }
bool read_equal_@(const virtual_ptr<animal, R>& p, const virtual_ptr<dog, R>& q) { return p == q; }
animal* read_get_@(const virtual_ptr<animal, R>& p) { return p.get(); }
vptr_type read_vptr_@(const virtual_ptr<animal, R>& p) { return p.vptr(); }
}
}
'''
MAPS = ['map', 'checked_map', 'indirect_map']
REGISTRIES = ['vector', 'indirect', 'checked', 'checked_indirect', 'quiet', 'unhashed'] + MAPS
# what is called besides the overrider: the policies and smart pointers of the probe, the
# run-time support of casts, and what ends the program
ALLOWED = (r'^(llvm\.(lifetime|assume|expect|experimental\.noalias|dbg|umul|uadd|usub|fsh|u?s?max|u?s?min|memcpy|memmove|memset|threadlocal)\S*|err_report|abort|omv_lookup|__dynamic_cast|__cxa_bad_cast|'
           r'omv::(hook_addref|hook_release|type_index|rec_\w+)\(.*|.*omv::(dyn_type|dyn_vptr|dyn_cast)<.*|__assert_fail|__cxa_bad_typeid|strcmp|memcmp|strlen|std::type_info::\S+.*)$')


def functions(path):
    fn, body = None, []
    for l in open(path):
        m = re.match(r'^define .*?@("?[\w.$]+"?)\((.*)\)', l)
        if m:
            fn, body, head = m.group(1).strip('"'), [], l
        elif l.startswith('}') and fn:
            yield fn, head, body
            fn = None
        elif fn:
            body.append(l.rstrip('\n'))


def root(v, defs, depth=0):
    """what an address is in: global, alloca, argument, or another thing"""
    if v.startswith('@'):
        return 'global', v
    d = defs.get(v)
    if d is None:
        return 'argument', v
    if depth > 60:
        return 'other', v
    if ' = alloca ' in d:
        return 'alloca', v
    m = re.match(r'.*= getelementptr (?:inbounds )?(?:nuw )?(?:%\S+|"[^"]*"|\[.*?\]|\{.*?\}|\w+), ptr ([%@][\w.$"]+)', d)
    if m:
        return root(m.group(1), defs, depth + 1)
    m = re.match(r'.*= (?:phi|select) (.*)', d)
    if m:
        rs = {root(x, defs, depth + 1) for x in re.findall(r'[%@][\w.$]+', re.sub(r'i1 %[\w.]+, ptr', 'ptr', re.sub(r', %[\w.]+ \]', ' ]', m.group(1))))}
        for kind in ('other', 'global', 'argument', 'alloca'):
            for r in rs:
                if r[0] == kind:
                    return r
    return 'other', d.strip()


def cyclic(body):
    succ, cur = {}, None
    order = []
    for l in body:
        m = re.match(r'^("?[\w.$-]+"?):', l)
        if m:
            cur = m.group(1).strip('"')
            continue
        cur = cur or '0'
        t = [x.strip('"') for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', l)]
        if t:
            succ.setdefault(cur, []).extend(t)
    seen, stack = set(), set()

    def visit(b):
        seen.add(b)
        stack.add(b)
        for s in succ.get(b, ()):
            if s in stack or s not in seen and visit(s):
                return True
        stack.discard(b)
        return False
    return any(visit(b) for b in list(succ) if b not in seen)


def judge(ctx, name, code):
    bc = flow.compile_ir(ctx, name, code, ['-fno-exceptions', '-DNDEBUG'])
    r = vlib.run(['/usr/bin/llvm-dis-18', bc, '-o', bc + '.ll'])
    if r.returncode:
        raise AnalysisError('llvm-dis: ' + r.stderr[:200])
    found = []
    calls = set()
    for fn, head, body in functions(bc + '.ll'):
        if not re.match(r'(call|make|assign|read)_', fn):
            continue
        defs = {}
        for l in body:
            m = re.match(r'\s*(%[\w.]+) = ', l)
            if m:
                defs[m.group(1)] = l
        # what the use creates or assigns
        sret = re.search(r'sret\([^)]*\)[^,]*?(%[\w.]+)[,)]', head)
        sret = sret.group(1) if sret else None
        first = re.search(r'\(.*?ptr [^,%]*(%[\w.]+)', head)
        dest = sret if not fn.startswith('assign') else first and first.group(1)
        bad, loads, indirect, unsure = [], 0, 0, []
        for l in body:
            l = re.sub(r', !\w+ !\d+', '', l)
            if re.search(r'\b(atomicrmw|cmpxchg|fence)\b', l) or re.search(r'\b(load|store) atomic\b', l):
                bad.append('synchronization: ' + l.strip())
            m = re.match(r'\s*store .*, ptr ([%@][\w.$"]+)', l)
            if not m:
                m = re.match(r'\s*(?:tail )?call void @llvm\.mem(?:cpy|move|set)\S*\(ptr [^%@]*([%@][\w.$"]+)', l)
            if m:
                kind, what = root(m.group(1), defs)
                if kind == 'argument' and what != dest and not (fn.startswith('make') and what == dest):
                    # an argument passed by value, in memory
                    if not re.search(r'byval\([^)]*\)[^,]*%s\b' % re.escape(what), head):
                        bad.append('writes to an argument: ' + l.strip())
                elif kind == 'global':
                    bad.append('writes to %s: %s' % (what, l.strip()))
                elif kind == 'other':
                    bad.append('writes to memory that it does not own: ' + l.strip())
            m = re.search(r'\b(?:call|invoke)\b.*?(@("[^"]+"|[\w.$]+)|%[\w.]+)\(', l)
            if m:
                if m.group(2):
                    calls.add(m.group(2).strip('"'))
                    found.append((fn, 'callee', m.group(2).strip('"'), l))
                else:
                    indirect += 1
            loads += bool(re.search(r'= load ', l))
        found.append((fn, 'done', cyclic(body), bad, loads, indirect))
    return found


def run(ctx):
    ctx.explanation.append(
        'Uses of each kind - calls of several shapes, creation, assignment and inspection of virtual pointers - are compiled for '
        'registries with each of the policies of the library, and inlined down to the policies of the program. In the code of '
        'each, every instruction on every path is inspected: nothing may be written but the result and local variables, '
        'no function may be called but the overrider, those of the program\'s own policies, the support of dynamic_cast, and what '
        'reports an error; nothing may be synchronized, allocated, or initialized on first use; there may be no loop, and '
        'the number of loads is bounded.')
    ctx.assumptions += ['the look-up of the map policy is that of the map of the program', 'clang 18 preserves semantics']
    regs = REGISTRIES
    for reg, found in zip(regs, parallel(lambda r: judge(ctx, 'a03_' + r, HEAD + BODY.replace('@', r)), regs)):
        names = {x[2] for x in found if x[1] == 'callee'}
        dem = dict(zip(sorted(names), vlib.run(['c++filt'], input='\n'.join(sorted(names))).stdout.split('\n'))) if names else {}
        done = [x for x in found if x[1] == 'done']
        if len(done) < 20:
            raise AnalysisError('only %d uses found for %s' % (len(done), reg))
        for fn, _, loop, bad, loads, indirect in done:
            odd = sorted({dem[x[2]] for x in found if x[1] == 'callee' and x[0] == fn and not re.match(ALLOWED, dem[x[2]])})
            ctx.check('read-only', fn, not bad, bad[0][:300] if bad else '')
            ctx.check('no-other-effect', fn, not odd, 'calls ' + odd[0][:200] if odd else '')
            ctx.check('bounded', fn, not loop and loads <= 64, 'has a loop' if loop else '%d loads' % loads)
