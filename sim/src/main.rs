use ndsim_core::{absent, Entry};

#[global_allocator]
static METER: ndsim_core::meter::Meter = ndsim_core::meter::Meter;

fn main() {
    let seed: u64 = env!("ND_CATALOG_SEED").parse().unwrap();
    let level = if cfg!(feature = "full") { 2 } else if cfg!(feature = "alloc") { 1 } else { 0 };
    let mut cat = ndsim_core::catalog::build(seed);
    let skip: Vec<usize> = env!("ND_SKIPPED").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let left_out = cat.exclude(&skip);
    let untraceable = cat.untraceable(&skip);
    let mut entries: Vec<Entry> = cat.v.iter().map(|_| Entry { run: absent, run_ge: None }).collect();
    for shard in [ndshard0::ENTRIES, ndshard1::ENTRIES, ndshard2::ENTRIES, ndshard3::ENTRIES, ndshard4::ENTRIES, ndshard5::ENTRIES, ndshard6::ENTRIES, ndshard7::ENTRIES] {
        for (id, e) in shard { entries[*id] = Entry { run: e.run, run_ge: e.run_ge }; }
    }
    ndsim_core::driver::main(ndsim_core::exec::World { cat, entries: entries.leak(), level, catalog_seed: seed, left_out, untraceable })
}
