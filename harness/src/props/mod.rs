use crate::core::Prop;
pub mod ext;
pub mod h2;
pub mod headers;
pub mod hpack;
pub mod http1;
pub mod laws;
pub mod memory;
pub mod msg;
pub mod robust;
pub mod tables;
pub mod threads;
pub mod torture;
pub mod url;
pub mod ws;

pub fn all() -> Vec<Prop> {
    let mut v = all_but_threads();
    v.extend(threads::props());
    v.extend(memory::props());
    v.sort_by_key(|p| p.id);
    v
}

/// the monitors that can themselves be run as a case of another
pub fn all_but_threads() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ext::props());
    v.extend(h2::props());
    v.extend(headers::props());
    v.extend(hpack::props());
    v.extend(http1::props());
    v.extend(laws::props());
    v.extend(msg::props());
    v.extend(robust::props());
    v.extend(tables::props());
    v.extend(url::props());
    v.extend(ws::props());
    v.sort_by_key(|p| p.id);
    v
}
