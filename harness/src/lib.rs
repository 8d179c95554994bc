#[macro_use]
pub mod s;
#[cfg(not(feature = "model"))]
pub mod cb;
#[cfg(not(feature = "model"))]
pub mod iv;
#[cfg(any(feature = "model", not(kani)))]
pub mod hm;
#[cfg(any(feature = "model", not(kani)))]
pub mod ct;
#[cfg(any(feature = "model", not(kani)))]
pub mod ds;
#[cfg(not(kani))]
pub fn registry() -> Vec<(&'static str, fn(&mut s::S))> {
    let mut v: Vec<(&'static str, fn(&mut s::S))> = vec![];
    #[cfg(not(feature = "model"))]
    {
        v.extend(cb::reg_c01());
        v.extend(cb::reg_c01t());
        v.extend(cb::reg_c02());
        v.extend(cb::reg_c02t());
        v.extend(cb::reg_c03());
        v.extend(cb::reg_c03t());
        v.extend(cb::reg_c04());
        v.extend(cb::reg_c04t());
        v.extend(cb::reg_c05());
        v.extend(cb::reg_c05t());
        v.extend(cb::reg_c06());
        v.extend(cb::reg_c06t());
        v.extend(cb::reg_c07());
        v.extend(cb::reg_c07t());
        v.extend(cb::reg_c08());
        v.extend(cb::reg_c08t());
        v.extend(cb::reg_c09());
        v.extend(cb::reg_c09t());
        v.extend(cb::reg_c10());
        v.extend(cb::reg_c10t());
        v.extend(cb::reg_c11());
        v.extend(cb::reg_c11t());
        v.extend(cb::reg_c12());
        v.extend(cb::reg_c12t());
        v.extend(iv::reg_i01());
        v.extend(iv::reg_i01t());
        v.extend(iv::reg_i02());
        v.extend(iv::reg_i02t());
        v.extend(iv::reg_i03());
        v.extend(iv::reg_i03t());
        v.extend(iv::reg_i04());
        v.extend(iv::reg_i04t());
        v.extend(iv::reg_i05());
        v.extend(iv::reg_i05t());
        v.extend(iv::reg_i06());
        v.extend(iv::reg_i06t());
        v.extend(iv::reg_i07());
        v.extend(iv::reg_i07t());
        v.extend(iv::reg_i08());
        v.extend(iv::reg_i08t());
        v.extend(iv::reg_i09());
        v.extend(iv::reg_i09t());
        v.extend(iv::reg_i10());
        v.extend(iv::reg_i10t());
        v.extend(iv::reg_i11());
        v.extend(iv::reg_i11t());
        v.extend(iv::reg_i12());
        v.extend(iv::reg_i12t());
        v.extend(iv::reg_i13());
        v.extend(iv::reg_i13t());
        v.extend(iv::reg_i14());
        v.extend(iv::reg_i14t());
        v.extend(iv::reg_i15());
        v.extend(iv::reg_i15t());
    }
    v.extend(ct::reg_k01());
    v.extend(ct::reg_k01t());
    v.extend(ct::reg_k02());
    v.extend(ct::reg_k02t());
    v.extend(ct::reg_k03());
    v.extend(ct::reg_k03t());
    v.extend(ct::reg_k04());
    v.extend(ct::reg_k04t());
    v.extend(ct::reg_k04b());
    v.extend(ct::reg_k04c());
    v.extend(ct::reg_k05());
    v.extend(ct::reg_k05t());
    v.extend(ct::reg_k06());
    v.extend(ct::reg_k06t());
    v.extend(ds::reg_d01());
    v.extend(ds::reg_d01t());
    v.extend(ds::reg_d01b());
    v.extend(ds::reg_d02());
    v.extend(ds::reg_d02t());
    v.extend(ds::reg_d03());
    v.extend(ds::reg_d03t());
    v.extend(ds::reg_d04());
    v.extend(ds::reg_d04t());
    #[cfg(feature = "vecs")]
    {
        v.extend(ds::reg_d05());
        v.extend(ds::reg_d05t());
        v.extend(ds::reg_d05b());
    }
    v
}
