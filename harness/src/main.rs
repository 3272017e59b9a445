mod abe;
mod ffi;
mod form;
mod hyb;
mod ipc;
mod lin;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p16;
mod p17;
mod p18;
mod p20;
mod p21;
mod p23;
mod pol;
mod sup;
mod toy;
mod via;
mod cif;

use sup::*;
mod run {
    pub use crate::hyb::{p13, p14, p15};
    pub use crate::p01::run as p01;
    pub use crate::p02::run as p02;
    pub use crate::p03::run as p03;
    pub use crate::p04::run as p04;
    pub use crate::p05::run as p05;
    pub use crate::p06::run as p06;
    pub use crate::p07::run as p07;
    pub use crate::p08::run as p08;
    pub use crate::p09::run as p09;
    pub use crate::p10::run as p10;
    pub use crate::p11::run as p11;
    pub use crate::p12::run as p12;
    pub use crate::p16::p16;
    pub use crate::p17::p17;
    pub use crate::p18::p18;
    pub use crate::p20::p20;
    pub use crate::p21::{p21, p22};
    pub use crate::p23::p23;
}

#[global_allocator]
static ALLOC: Counting = Counting;

macro_rules! props { ($($id:literal $m:ident $b:literal [$($a:literal),*];)*) => {
    const PROPS: &[Prop] = &[$(Prop { id: $id, run: run::$m, procs: if matches!($id.as_bytes(), b"P18") { 8 } else { 1 }, bounds: $b, assumptions: &[$($a),*] }),*];
} }
props! {
    "P01" p01 "all AND/OR trees <= 6 (8) leaves x all subsets x orders x extras; every attribute assignment <= 4 leaves; repeated attributes; chains to 130 (300) and balanced trees to 64 leaves; all F_3 randomness <= 3 (4) leaves; BLS12-381 <= 3 (5) leaves" ["the toy group runs the same generic scheme code as BLS12-381"];
    "P02" p02 "7 policies <= 5 attributes x all access policies <= 3 (4) leaves x all attribute sets; all positions of an unknown name; hierarchical and flat axes of 3 confusable names in every order and of up to 33 (130) names, every leaf against every attribute; through the C functions (direct, cached): 2 policies of 4 and 5 attributes x all access policies <= 2 (3) leaves and the wildcard x all attribute sets, unknown names, the wildcard inside formulas" ["the toy group runs the same generic scheme code as BLS12-381"];
    "P03" p03 "all histories of rotate/issue/encrypt/reload/add-axis to depth 6 (8), <= 2 keys and 2 ciphertexts per menu; mixed menus to depth 5 (6); linear histories of 140 (520) rotations of one attribute and 14 (40) of several in turn, each generation with keys and ciphertexts; through the C functions: 2 (4) histories of lists of rotations, 10 keys and 9 attribute sets of each generation" ["abstract state (versions, provenance) determines the future"];
    "P05" p05 "single keys <= 7 (8) leaves, pools of 2 keys <= 3 leaves and 3 keys <= 2 leaves, pools of delegated keys with randomness dimension <= 8 (9); every resolution of the randomness and every y over F_3 (F_5); large keys of 8-66 (130) leaves, pairs to 17 (40), delegated pairs to 13 (24): every basis vector of the draws, 60 (600) maximal refused sets" ["independence is a linear-algebra fact that small fields exhibit"];
    "P06" p06 "closure of rewrites of every formula <= 6 (7) leaves; every (parent, child) <= 3 (4) leaves, two levels; all chains <= 3 (4) leaves; large formulas to 66 (100) leaves on their maximal refused sets; 70 (300) delegations in a row; policies of 5 attributes; keys of each generation of a policy of 4 attributes rotated <= 2 (3) times delegated under the policy of each generation" ["the toy group runs the same generic scheme code as BLS12-381"];
    "P07" p07 "every parent key of every formula <= 5 (6) leaves, every rewrite, every draw over F_3; <= 3 (4) leaves over F_5; pairs of delegations <= 3 leaves; large keys to 36 (66) leaves, every basis vector of the draws over F_(2^61-1)" ["small fields exhibit the distribution of the generic code"];
    "P08" p08 "all draws: master keys <= 5 (6) slots over F_5 and 10 (12) over F_3, ciphertexts over all attribute sets of 4, keys <= 6 (7) leaves, plaintexts and symmetric keys over F_251; keys to 66 (260) leaves and ciphertexts to 300 (600) attributes by basis vectors of the draws; every single-bit flip of the entropy of a BLS12-381 scalar and target element; generator outputs over 64 (512) threads; the same call again and again through the Rust, C (several threads, caches that stay), Python and WebAssembly interfaces" ["the operating system's entropy source is sound", "repetition across calls is judged on the calls made: a repeat has probability < 2^-64 when generators are fresh"];
    "P09" p09 "every master/delegation key <= 4 (6) slots over F_5, every user key <= 6 (9) matrix entries and every ciphertext <= 4 attributes over F_3, every formula <= 5 (6) leaves, 7 tails each; sizes to 300 (2000) and around 2^16, integer lists to 2^24; BLS12-381 and golden objects; keys and headers made by the C functions for 1-8 (100) values" ["golden objects were written by the pinned tree"];
    "P10" p10 "every string <= 9 (11) bytes over {0,1,2,255} as every kind of object over F_3 (7 (8) over F_(2^61-1)); 14 edge values in every size field x bodies of every length; every truncation, byte substitution, removal, insertion (and pair of substitutions) of samples; every F_3 matrix <= 3x3, 4x2, 2x4 (4x3); all pairs of objects of masters of 0..5 (6) slots; BLS12-381 mutations and special elements" ["memory proportionality is judged with a constant of 100-1000 bytes per input byte plus 64 KiB"];
    "P11" p11 "every text <= 6 (8) over {1 2 ( ) & | space} and <= 5 (6) over {0 1 & | ( ) a -}; every token sequence <= 6 (9) with distinct leaves; every formula <= 5 (6) leaves in every printed form, <= 4 (5) leaves with every spacing and single-character fault; 600 foreign characters at every place; integer limits; depth to 30000" ["equivalence of readings is decided on truth tables over the leaves"];
    "P12" p12 "all pairs of 22 boundary exponents in every group and operation; all triples of 11 (22) exponents in single pairings; all lists <= 3 (4) over 7 characteristic triples, one-off lists to 6 (7), mixed and one-off lists to 257; 1 bit of each byte (every bit) of 4 encodings per group, flags, small coordinates, limbs plus p; every message <= 2 bytes and single/double faults to 40 bytes" ["the reference arithmetic of the check and the published group order"];
    "P13" p13 "3 policies <= 5 attributes x all access policies <= 2 (3) leaves and the wildcard x all attribute sets x 6 metadata shapes; BLS12-381 <= 1 (2) leaves; all pairs of identifier and data lengths <= 40 (130) and 7 larger ones; engine keys of every length <= 300 (1100) and 5 larger ones; policies, metadata and lengths also under 4 other symmetric schemes (keys 5, 16, 33, 64; nonces 0, 8, 13, 24; tags 16, 20, 33, 48); through the C functions: all pairs of 10 (47) identifier and data lengths, odd contents, lengths beyond 2^16, right, unsuitable and foreign keys" ["the toy group runs the same generic scheme code as BLS12-381"];
    "P14" p14 "12 headers over the toy group: every byte value at every place, every truncation, removal, insertion, every value <= length + 8 and edges of both length fields, field replacement, splices at every pair of places (2 headers, all in thorough); 1 (3) BLS12-381 headers: 6 values at every place, truncations, length values; 2 (12) headers and the structured forms for each of 4 other symmetric schemes; through the C functions: all truncations, altered bytes, lengths, fields of one BLS12-381 header" ["AES-GCM forgeries have probability 2^-128"];
    "P15" p15 "every data length to 3 past maxima 1, 2, 16, 33 (300), edges of 4096 (1 MiB), every truncation and extension to 30; all pairs of 620 (identifier, number); every byte value, removal, move and swap in blocks of 6 (64) lengths; every bit of identifier, number and key; maxima 1, 33, 4096, all pairs, 3 (64) altered lengths for each of 4 other symmetric schemes; through the C functions: 132 (identifier, number), all lengths <= 33 (300) and larger, all pairs of identities, all single bits, truncations" ["AES-GCM forgeries have probability 2^-128"];
    "P16" p16 "14 functions: every pair of 90 block numbers; every combination of null pointers, null length pointers and zero/negative lengths of all arguments; every single content fault (all truncations of keys and texts, up to 15 byte values at every (5th; every) place, 70 policy, 30 access and 40 attribute variants, objects of other masters), all pairs of faults in two arguments over 12 (all) representatives; every failed call x every correct call" ["inputs of unbounded size requests (huge max_attribute_creations in key generation) are excluded"];
    "P17" p17 "6 worlds of identifier, additional data, policy and data sizes: every capacity 1..need+3 for texts, blocks and small outputs (all outputs), 30 edges for others, all combinations of 4-8 capacities per output, every block length to 70 (300); guard pages and canaries around every buffer" [];
    "P18" p18 "all histories of create/destroy over 2 object sets to depth 4 (6), with failing creations, failing uses, foreign and unknown handles to depth 3 (4), every handle used after each; 1200 (12000) caches alive, 1100 (67000) in one crowd; 150 (2000) uses of one; direct vs cached calls over all attribute sets, malformed texts and altered headers" [];
    "P20" p20 "all messages <= 2 bytes, lengths 0..70 (200) x capacities 1..90 (260) and edges to 100000; all histories of 7 (11) operations on two threads to depth 5; every function x faults in each argument; messages holding zero bytes" [];
    "P21" p21 "6 policies <= 5 attributes x all access policies <= 2 (3) leaves x all attribute sets; every text of <= 6 (7) tokens and <= 3 (4) pieces of tokens, every spacing of 3 leaves and single-character fault; all rotation histories to depth 2 (3); every delegation of <= 2 (3) leaves; metadata and block shapes, all pairs of block identities; policies of <= 2 axes; every truncation and boundary alteration of each argument" [];
    "P22" p22 "6 policies <= 5 attributes x all access policies <= 2 (3) leaves x all attribute sets; every text of <= 6 (7) tokens and <= 3 (4) pieces of tokens, every spacing of 3 leaves and single-character fault; all rotation histories to depth 2 (3); metadata and block shapes, all pairs of block identities; all histories of cache calls to depth 3 (4); every truncation and boundary alteration of each argument" ["arguments have the types the TypeScript declarations state"];
    "P23" p23 "2 worlds: flows that hold every combination of 3 (5) of 10 choices (base policy, rotation, master keys, user key, sealer, opener over the 4 interfaces and 2 caches, access policy, attributes, generations); every sealer x opener x 16 metadata shapes; headers for 1256 attributes; delegation made and used by each; every block maker x opener x 7 identifiers x 10 numbers x 6 lengths; whole texts taken apart and put together; 3 ways to write JSON; truncations and altered bytes of headers, keys and blocks refused by all or none" ["WebAssembly block numbers are below 2^32, C block numbers below 2^31 (their argument types)", "headers sealed through WebAssembly have a non-empty identifier and no additional data (its function refuses or lacks them)"];
    "P04" p04 "all policies with max creations <= 6 (9), all splits in <= 3 axes, rotations; exhausted policies of 21 (330) larger maxima to 65537 (2^20); 0..8 (20) slots beyond; through the C functions: all maxima <= 5 (8), filled by rotations, and larger ones" ["the toy group runs the same generic scheme code as BLS12-381"];
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| PROPS.iter().find(|p| p.id == id);
    let code = match a.get(1).map(String::as_str) {
        Some("worker") => {
            let p = find(&a[2]).expect("property");
            let tier = if a[3] == "quick" { Tier::Quick } else { Tier::Thorough };
            worker(p, tier, a[4].parse().unwrap(), a.get(7).cloned(), &a[5], &a[6])
        }
        Some("secrets") => {
            println!("{}", serde_json::to_string(&p08::secrets(a[2].parse().unwrap()).unwrap()).unwrap());
            0
        }
        Some("deep") => p11::deep(&a[2], a[3].parse().unwrap()),
        Some("golden") => {
            println!("{}", p09::golden().unwrap());
            0
        }
        Some("run") => {
            let Some(p) = find(&a[2]) else {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2)
            };
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            supervise(p, tier, seed, only.as_deref())
        }
        _ => {
            eprintln!("usage: mc run Pxx [--only case]");
            2
        }
    };
    std::process::exit(code);
}
