//! The multithreaded server with other numbers of workers than `multi.rs` has.
fn main() {
    let mut a = std::env::args().skip(1).map(|s| s.parse().expect("a number"));
    let (l, n) = (a.next().expect("listeners"), a.next().expect("analyzers"));
    server::multithreaded::Coordinator::new(l, n, std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST), 7878).serve();
}
