/// successive results of the core are the key stream the block generator hands out
pub fn core_stream(seed: Block, n: usize) -> (out: Vec<u32>)
    requires n < 0x1000_0000
    ensures out@.len() == 32 * n, forall|j: int| #![trigger out@[j]] 0 <= j < out@.len() ==> out@[j] == kword(rks(seed.0), j)
{
    let mut c = PrgCore::core_from_seed(seed);
    let mut out: Vec<u32> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n < 0x1000_0000, out@.len() == 32 * i, c.aes.wf(), c.aes.ks() == rks(seed.0), c.state == 8 * i,
            forall|j: int| #![trigger out@[j]] 0 <= j < out@.len() ==> out@[j] == kword(rks(seed.0), j)
        decreases n - i
    {
        let mut res: Vec<u32> = Vec::new();
        c.generate(&mut res);
        out.append(&mut res);
        i += 1;
    }
    out
}
