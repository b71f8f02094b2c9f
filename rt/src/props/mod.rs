pub mod classic;
pub mod cli;
pub mod codec;
pub mod columns;
pub mod conc;
pub mod gram;
pub mod hostile;
pub mod leak;
pub mod spelling;
pub mod store;
pub mod tags;

use crate::ctx::Ctx;

pub fn case(prop: &str) -> Option<fn(&mut Ctx, u64)> {
    Some(match prop {
        "C01" => store::c01,
        "C02" => codec::c02,
        "C03" => hostile::c03,
        "C05" => gram::c05,
        "C06" => gram::c06,
        "C07" => gram::c07,
        "C08" => gram::c08,
        "C09" => store::c09,
        "C10" => classic::c10,
        "C11" => classic::c11,
        "C12" => classic::c12,
        "C16" => tags::c16,
        "C17" => spelling::c17,
        "C18" => cli::c18,
        "C19" => store::c19,
        "C20" => conc::c20,
        "C22" => gram::c22,
        "C23" => store::c23,
        "C24" => leak::c24,
        "C25" => columns::c25,
        "C26" => columns::c26,
        _ => return None,
    })
}
