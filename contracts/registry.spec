# The registry: a name keeps its first constructor; every construction passes the
# constructor a configuration of its own. Function values are described by the
# code they run (fnof_...) and by the variables they captured (cap_...).
needs reflect

ghost ct_n: int
ghost ct_fn: Map<int, Opq>
ghost ct_conf: Map<int, Opq>
ghost ct_addr: Map<int, int>
ghost rmem: Map<int, Opq>

rust
pub uninterp spec fn ty_numin(t: Iface) -> int;
pub uninterp spec fn ty_in(t: Iface, i: int) -> Iface;
pub uninterp spec fn ty_out(t: Iface, i: int) -> Iface;
pub uninterp spec fn ty_impl(t: Iface, u: Iface) -> bool;
// the address a reflected pointer holds, or at which an addressable value lies
pub uninterp spec fn rv_ptr(v: Opq) -> int;
pub uninterp spec fn iface_ptr(i: Iface) -> int;
// the zero configuration of type t
pub uninterp spec fn zeroconf(t: Iface) -> Opq;
// configuration c overridden by the options m
pub uninterp spec fn overridden(c: Opq, m: Map<Str, Iface>) -> Opq;
pub uninterp spec fn uc_of(c: int) -> Map<Str, Iface>;
pub uninterp spec fn nf_ok(m: Map<Str, Iface>) -> bool;
pub uninterp spec fn up_ok(c: Opq, m: Map<Str, Iface>) -> bool;
// What a call of a function of type t shows of its i-th result: interfaces and
// pointers to processors convert to the interface the type implements.
pub open spec fn called_out(t: Iface, o: Opq, i: int) -> bool {
    &&& rv_ok(o) && rv_kind(o) == ty_kind(ty_out(t, i)) && !(rv_dyn(rv_seq(o)) is V_s_any)
    &&& (ty_impl(ty_out(t, i), glob_registry_errorInterface()) && !rv_isnil(o) ==> impl_error(rv_any(o)) && !(rv_any(o) is Nil))
    &&& (ty_impl(ty_out(t, i), glob_registry_processorInterface()) && rv_kind(o) == 22 ==> impl_processor_Processor(rv_any(o)) && !(rv_any(o) is Nil))
}
// what the n-th call of a constructor returned
pub uninterp spec fn ct_out(n: int, i: int) -> Opq;

pub open spec fn rprocs(h: H, r: int) -> Map<Str, S_registry_processorConstructor> { h.M_string_registry_processorConstructor[h.registry_Registry_procs[r]] }
// the constructor a registered entry calls
pub open spec fn ctor(h: H, pc: S_registry_processorConstructor) -> Opq { h.C_reflect_Value[cap_registry_v(pc.newProc)] }
pub open spec fn nilable(k: int) -> bool { 18 <= k <= 23 || k == 26 }
// A constructor: func(struct) (pointer to a processor, error).
pub open spec fn shape(v: Opq) -> bool {
    let t = rv_type(v);
    &&& rv_ok(v) && rv_kind(v) == 19 && !rv_isnil(v)
    &&& ty_numin(t) == 1 && !(ty_in(t, 0) is Nil) && ty_kind(ty_in(t, 0)) == 25
    &&& ty_numout(t) == 2 && ty_kind(ty_out(t, 0)) == 22 && ty_impl(ty_out(t, 0), glob_registry_processorInterface())
    &&& ty_impl(ty_out(t, 1), glob_registry_errorInterface()) && (ty_kind(ty_out(t, 1)) == 20 || ty_kind(ty_out(t, 1)) == 22 || ty_kind(ty_out(t, 1)) == 21 || ty_kind(ty_out(t, 1)) == 23 || ty_kind(ty_out(t, 1)) == 18 || ty_kind(ty_out(t, 1)) == 19)
}
pub open spec fn pcok(h: H, pc: S_registry_processorConstructor) -> bool {
    &&& pc.newConfig != 0 && fnof_to_reflect_Value(pc.newConfig)
    &&& pc.newProc != 0 && fnof_reflect_Value_to_processor_Processor_error(pc.newProc)
    &&& 0 < cap_registry_v(pc.newProc) < h.alloc && 0 < cap_registry_configType(pc.newConfig) < h.alloc
    &&& shape(ctor(h, pc)) && h.C_reflect_Type[cap_registry_configType(pc.newConfig)] == ty_in(rv_type(ctor(h, pc)), 0)
}
pub open spec fn regok(h: H, r: int) -> bool {
    &&& r != 0 && h.registry_Registry_procs[r] != 0
    &&& forall|k: Str| #![trigger rprocs(h, r).dom().contains(k)] #![trigger h.M_string_registry_processorConstructor[h.registry_Registry_procs[r]].dom().contains(k)]
        rprocs(h, r).dom().contains(k) ==> pcok(h, rprocs(h, r)[k])
}
end rust

extern reflect.New(t) (v)
  modifies rmem
  requires @C22 !(t is Nil)
  ensures rv_ok(v) && rv_kind(v) == 22 && !rv_isnil(v) && h.alloc <= rv_ptr(v) < h2.alloc && h2.rmem == h.rmem.insert(rv_ptr(v), zeroconf(t)) && rv_type(rv_elem(v)) == t
iface (reflect.Type).NumIn(t) (n)
  pure
  requires @C22 ty_kind(t) == 19
  ensures n == ty_numin(t) && n >= 0
iface (reflect.Type).In(t, i) (r)
  pure
  requires @C22 ty_kind(t) == 19 && 0 <= i < ty_numin(t)
  ensures r == ty_in(t, i) && !(r is Nil)
iface (reflect.Type).Out(t, i) (r)
  pure
  requires @C22 ty_kind(t) == 19 && 0 <= i < ty_numout(t)
  ensures r == ty_out(t, i) && !(r is Nil)
extern github.com/elastic/go-ucfg.NewFrom(from, opts) (c, err)
  ensures err is Nil ==> c != 0
  ensures opts.l == 0 && from is V_m_string_any ==> (err is Nil) == nf_ok(h.M_string_any[from->V_m_string_any_0]) && (err is Nil ==> uc_of(c) == h.M_string_any[from->V_m_string_any_0])
extern (*github.com/elastic/go-ucfg.Config).Unpack(c, to, opts) (err)
  modifies rmem
  requires @C22 c != 0
  ensures forall|p: int| p != iface_ptr(to) ==> (#[trigger] h2.rmem[p]) == h.rmem[p]
  ensures opts.l == 0 ==> (err is Nil) == up_ok(h.rmem[iface_ptr(to)], uc_of(c)) && (err is Nil ==> h2.rmem[iface_ptr(to)] == overridden(h.rmem[iface_ptr(to)], uc_of(c)))

func pkg/processor/registry.NewRegistry() (r)
  ensures @C22 [a new registry is empty] regok(h2, r) && r >= h.alloc && rprocs(h2, r).dom() =~= Set::empty()

func (*pkg/processor/registry.Registry).Register(r, name, constructorFunc) (err)
  modifies rmem ct_n ct_fn ct_addr ct_conf M_string_registry_processorConstructor
  requires regok(h, r)
  ensures @C22 [a name is registered once, and only for a constructor] (err is Nil) == (!rprocs(h, r).dom().contains(name) && shape(rv_of(constructorFunc)))
  ensures @C22 [a failed registration changes nothing] !(err is Nil) ==> rprocs(h2, r) =~= rprocs(h, r)
  ensures @C22 [the constructor is registered under its name] err is Nil ==> rprocs(h2, r).dom() =~= rprocs(h, r).dom().insert(name) && ctor(h2, rprocs(h2, r)[name]) == rv_of(constructorFunc)
  ensures @C22 [the other names keep their constructors] forall|k: Str| k != name && #[trigger] rprocs(h, r).dom().contains(k) ==> ctor(h2, rprocs(h2, r)[k]) == ctor(h, rprocs(h, r)[k])
  ensures @C22 [the registry holds only constructors] regok(h2, r)

func (*pkg/processor/registry.Registry).NewProcessor(r, name, config) (proc, err)
  modifies rmem ct_n ct_fn ct_addr ct_conf
  requires regok(h, r)
  ensures @C22 [an unknown name is an error] !rprocs(h, r).dom().contains(name) ==> !(err is Nil) && h2.ct_n == h.ct_n
  ensures @C22 [the registered constructor is called at most once] h2.ct_n == h.ct_n || h2.ct_n == h.ct_n + 1 && h2.ct_fn[h.ct_n] == ctor(h, rprocs(h, r)[name])
  ensures @C22 [it is called when the options fit the configuration] rprocs(h, r).dom().contains(name) ==>
    (h2.ct_n == h.ct_n + 1) == (nf_ok(h.M_string_any[config]) && up_ok(zeroconf(ty_in(rv_type(ctor(h, rprocs(h, r)[name])), 0)), h.M_string_any[config]))
  ensures @C22 [its configuration is the defaults overridden by the options] h2.ct_n == h.ct_n + 1 ==> h2.ct_conf[h.ct_n] == overridden(zeroconf(ty_in(rv_type(ctor(h, rprocs(h, r)[name])), 0)), h.M_string_any[config])
  ensures @C22 [its configuration is not shared] h2.ct_n == h.ct_n + 1 ==> h2.ct_addr[h.ct_n] >= h.alloc
  ensures @C22 [the result is the constructor's] h2.ct_n == h.ct_n + 1 ==> if rv_isnil(ct_out(h.ct_n, 1)) { err is Nil && proc == rv_any(ct_out(h.ct_n, 0)) } else { err == rv_any(ct_out(h.ct_n, 1)) && proc is Nil }
  ensures @C22 [no construction without the constructor] h2.ct_n == h.ct_n ==> !(err is Nil)
  ensures @C22 [a processor is never nil] err is Nil ==> !(proc is Nil)
  ensures @C22 [the registry is unchanged] regok(h2, r) && rprocs(h2, r) == rprocs(h, r)

# The package's own registry, which pipelines are built from.
func pkg/processor/registry.NewProcessor(name, config) (proc, err)
  modifies rmem ct_n ct_fn ct_addr ct_conf
  requires regok(h, glob_registry_constructors())
  ensures @C22 [an unknown name is an error] !rprocs(h, glob_registry_constructors()).dom().contains(name) ==> !(err is Nil) && h2.ct_n == h.ct_n
  ensures @C22 [the registered constructor is called at most once] h2.ct_n == h.ct_n || h2.ct_n == h.ct_n + 1 && h2.ct_fn[h.ct_n] == ctor(h, rprocs(h, glob_registry_constructors())[name])
  ensures @C22 [it is called when the options fit the configuration] rprocs(h, glob_registry_constructors()).dom().contains(name) ==>
    (h2.ct_n == h.ct_n + 1) == (nf_ok(h.M_string_any[config]) && up_ok(zeroconf(ty_in(rv_type(ctor(h, rprocs(h, glob_registry_constructors())[name])), 0)), h.M_string_any[config]))
  ensures @C22 [its configuration is the defaults overridden by the options] h2.ct_n == h.ct_n + 1 ==> h2.ct_conf[h.ct_n] == overridden(zeroconf(ty_in(rv_type(ctor(h, rprocs(h, glob_registry_constructors())[name])), 0)), h.M_string_any[config])
  ensures @C22 [its configuration is not shared] h2.ct_n == h.ct_n + 1 ==> h2.ct_addr[h.ct_n] >= h.alloc
  ensures @C22 [the result is the constructor's] h2.ct_n == h.ct_n + 1 ==> if rv_isnil(ct_out(h.ct_n, 1)) { err is Nil && proc == rv_any(ct_out(h.ct_n, 0)) } else { err == rv_any(ct_out(h.ct_n, 1)) && proc is Nil }
  ensures @C22 [no construction without the constructor] h2.ct_n == h.ct_n ==> !(err is Nil)
  ensures @C22 [a processor is never nil] err is Nil ==> !(proc is Nil)
  ensures @C22 [the registry is unchanged] regok(h2, glob_registry_constructors()) && rprocs(h2, glob_registry_constructors()) == rprocs(h, glob_registry_constructors())

func pkg/processor/registry.MustRegister(name, constructorFunc)
  modifies rmem ct_n ct_fn ct_addr ct_conf M_string_registry_processorConstructor
  requires regok(h, glob_registry_constructors()) && !rprocs(h, glob_registry_constructors()).dom().contains(name) && shape(rv_of(constructorFunc))
  ensures @C22 [the constructor is registered under its name] rprocs(h2, glob_registry_constructors()).dom() =~= rprocs(h, glob_registry_constructors()).dom().insert(name) && ctor(h2, rprocs(h2, glob_registry_constructors())[name]) == rv_of(constructorFunc)
  ensures @C22 [the other names keep their constructors] forall|k: Str| k != name && #[trigger] rprocs(h, glob_registry_constructors()).dom().contains(k) ==> ctor(h2, rprocs(h2, glob_registry_constructors())[k]) == ctor(h, rprocs(h, glob_registry_constructors())[k])
  ensures @C22 [the registry holds only constructors] regok(h2, glob_registry_constructors())

