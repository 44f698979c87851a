//! What the runs of each property concentrate on. Every profile runs the whole system with every kind
//! of transaction and fault; only the proportions and the additional observers differ.
use crate::gen::Profile;
use crate::run::Rates;

//                      open swap route claim close burn give nft send appr revk oper wdrw conf tier pool tokn junk
const BASE: [u32; 18] = [30, 40, 8, 8, 10, 3, 3, 3, 2, 4, 2, 2, 4, 3, 2, 3, 2, 2];

fn base() -> Profile {
    Profile {
        steps: 130,
        rates: Rates { quote: 10, client: 5, surplus: 10, books: 15, digest: 10 },
        w: BASE,
        lists: 10,
        pools: 10,
        ticks: 10,
        client: 5,
        drain: 4,
        round: 10,
        abort: 5,
        restart: 3,
        migrate: 2,
        hostile: 25,
        fails: 2,
        gas: 1,
        proxy: 4,
        replica: 0,
        max_pos: 24,
        natives: 40,
        ladder: 0,
        mega: 0,
        crowd: 3,
        party: 4,
    }
}

pub fn profile(n: u8) -> Profile {
    let mut p = base();
    let w = &mut p.w;
    match n {
        1 => {
            p.rates.surplus = 100;
            p.rates.books = 30;
            p.drain = 15;
            p.round = 40;
            p.natives = 50;
            w[6] = 5;
        }
        2 => {
            w[1] = 50;
            w[2] = 25;
            w[16] = 4;
            p.natives = 65;
            p.fails = 4;
            p.rates.quote = 0;
        }
        3 => {
            w[2] = 20;
            w[8] = 6;
            p.abort = 70;
            p.fails = 15;
            p.gas = 8;
            p.proxy = 20;
            p.rates.digest = 100;
            p.steps = 90;
        }
        4 => {
            w[1] = 90;
            p.round = 60;
            p.steps = 160;
        }
        5 => {
            w[1] = 70;
            w[2] = 35;
            p.rates.digest = 0;
        }
        6 => {
            w[0] = 45;
            w[1] = 60;
            w[4] = 20;
            p.rates.books = 100;
            p.max_pos = 30;
            p.ticks = 20;
        }
        7 => {
            w[1] = 70;
            w[3] = 15;
            w[4] = 12;
            w[6] = 4;
            p.client = 15;
            p.steps = 170;
        }
        8 => {
            w[1] = 60;
            w[2] = 15;
            w[12] = 14;
            w[13] = 10;
        }
        9 => {
            w[1] = 60;
            w[2] = 30;
            p.rates.quote = 100;
        }
        10 => {
            w[12] = 15;
            w[13] = 30;
            w[14] = 10;
            w[15] = 6;
            w[16] = 5;
        }
        11 => {
            w[0] = 30;
            w[1] = 15;
            w[5] = 12;
            w[6] = 8;
            w[7] = 14;
            w[8] = 10;
            w[9] = 20;
            w[10] = 8;
            w[11] = 12;
            p.lists = 60;
            p.max_pos = 14;
            p.party = 18;
        }
        12 => {
            w[0] = 50;
            w[1] = 15;
            w[4] = 14;
            w[5] = 10;
            w[6] = 14;
            w[7] = 12;
            w[8] = 5;
            w[9] = 12;
            p.crowd = 30;
            p.lists = 90;
            p.max_pos = 40;
        }
        13 => {
            w[13] = 6;
            w[14] = 25;
            w[15] = 35;
            p.pools = 100;
            p.crowd = 40;
        }
        14 => {
            w[0] = 50;
            w[4] = 16;
            p.ticks = 120;
            p.mega = 6;
            p.crowd = 30;
            p.client = 30;
            p.max_pos = 40;
        }
        15 => {
            w[1] = 60;
            p.rates.client = 100;
            p.client = 80;
            p.crowd = 25;
            p.ladder = 80;
        }
        16 => {
            p.restart = 30;
            p.migrate = 30;
            p.gas = 5;
            p.fails = 5;
            p.replica = 100;
            p.rates.digest = 0;
            p.rates.quote = 60;
            p.crowd = 15;
        }
        17 => {
            w[0] = 60;
            w[4] = 25;
            p.round = 80;
        }
        18 => {
            p.hostile = 100;
            p.fails = 12;
            p.proxy = 12;
            w[15] = 6;
            p.rates.surplus = 30;
        }
        19 => {
            p.drain = 60;
            p.abort = 10;
            p.hostile = 40;
            w[4] = 12;
        }
        20 => {
            w[1] = 60;
            w[4] = 15;
            p.steps = 150;
        }
        _ => {}
    }
    p
}

/// (number of runs, cap in seconds)
pub fn budget(_n: u8, tier: &str) -> (u64, u64) {
    if tier == "thorough" {
        (40_000, 1500)
    } else {
        (1500, 150)
    }
}
