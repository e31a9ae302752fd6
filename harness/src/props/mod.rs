use crate::runner::Prop;
pub mod exec;
pub mod io;
mod crowd;
#[cfg(feature = "pools")]
mod pools;
pub mod servers;
mod store;
#[cfg(feature = "sweeps")]
mod sweeps;
mod text;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(store::props());
    v.extend(text::props());
    v.extend(exec::props());
    v.extend(io::props());
    v.extend(servers::props());
    v.extend(crowd::props());
    #[cfg(feature = "pools")]
    v.extend(pools::props());
    #[cfg(feature = "sweeps")]
    v.iter_mut().find(|p| p.id == "C03").unwrap().legs.extend(sweeps::legs());
    v
}
