mod apart;
mod builds;
mod client;
mod disk;
mod env;
mod explore;
mod giant;
mod mock;
mod more;
mod names;
mod options;
mod parse;
mod release;
mod results;
mod rnd;
mod saves;
mod sys;
mod web;

use explore::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn groups(prop: &str, thorough: bool) -> Vec<Group> {
    match prop {
        "C01" => parse::c01(thorough),
        "C02" => parse::c02(thorough),
        "C03" => parse::c03(thorough),
        "C04" => parse::c04(thorough),
        "C05" => parse::c05(thorough),
        "C06" => parse::c06(thorough),
        "C07" => parse::c07(thorough),
        "C08" => client::c08(thorough),
        "C09" => client::c09(thorough),
        "C10" => client::c10(thorough),
        "C11" => client::c11(thorough),
        "C12" => saves::c12(thorough),
        "C15" => saves::c15(thorough),
        "C16" => saves::c16(thorough),
        "C13" => saves::c13(thorough),
        "C17" => saves::c17(thorough),
        "C18" => saves::c18(thorough),
        "C19" => saves::c19(thorough),
        "C14" => saves::c14(thorough),
        "C22" => more::c22(thorough),
        "C23" => more::c23(thorough),
        "C24" => more::c24(thorough),
        "C26" => more::c26(thorough),
        "C27" => results::c27(thorough),
        "C28" => apart::c28(thorough),
        "C29" => options::c29(thorough),
        "C30" => mock::c30(thorough),
        "C31" => mock::c31(thorough),
        "C32" => names::c32(thorough),
        "C33" => names::c33(thorough),
        "C34" => release::c34(thorough),
        "C35" => builds::c35(thorough),
        "C20" => web::c20(thorough),
        "C25" => web::c25(thorough),
        "C21" => web::c21(thorough),
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    let mut o = Opts {
        prop: String::new(),
        thorough: false,
        out: String::new(),
        shared: String::new(),
        worker: 0,
        soft_secs: 600,
        hang_secs: 20,
        known: vec![],
        replay: None,
        only: None,
        keep_going: false,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("argument value");
        match &k[..] {
            "--prop" => o.prop = v(),
            "--tier" => o.thorough = v() == "thorough",
            "--out" => o.out = v(),
            "--shared" => o.shared = v(),
            "--worker" => o.worker = v().parse().unwrap(),
            "--soft" => o.soft_secs = v().parse().unwrap(),
            "--hang" => o.hang_secs = v().parse().unwrap(),
            "--only" => o.only = Some(v()),
            "--keep-going" => o.keep_going = true,
            "--known" => {
                let s = v();
                let (p, k) = s.split_once(' ').unwrap();
                o.known.push((p.into(), k.into()));
            }
            "--replay" => {
                let s = v();
                let mut it = s.split(' ');
                let g = it.next().unwrap().to_string();
                let outer = it.next().unwrap().parse().unwrap();
                let ch = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                o.replay = Some((g, outer, ch));
            }
            _ => panic!("unknown argument {}", k),
        }
    }
    // files larger than this are never needed; a runaway writer gets EFBIG instead of filling the disk
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut lim);
        lim.rlim_cur = 256 << 20;
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
    }
    let gs = groups(&o.prop, o.thorough);
    std::process::exit(main_loop(&o, gs));
}
