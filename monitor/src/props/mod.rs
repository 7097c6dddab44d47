use crate::engine::Clause;
pub mod gammas;
pub mod bessels;
pub mod betas;
pub mod caches;
pub mod errors;
pub mod lambert;
pub mod system;
pub mod table;
pub fn clauses(id: &str) -> Option<Vec<Clause>> {
    Some(match id {
        "G01" => gammas::g01(), "G02" => gammas::g02(), "G03" => gammas::g03(), "G04" => gammas::g04(), "G05" => gammas::g05(), "G06" => gammas::g06(),
        "B01" => betas::b01(), "B02" => betas::b02(), "B03" => betas::b03(), "B04" => betas::b04(),
        "E01" => errors::e01(), "E02" => errors::e02(), "E03" => errors::e03(), "D01" => errors::d01(), "W01" => errors::w01(), "W02" => errors::w02(),
        "J01" => bessels::j01(), "J02" => bessels::j02(), "J03" => bessels::j03(), "J04" => bessels::j04(), "J05" => bessels::j05(),
        "K01" => caches::k01(), "K02" => caches::k02(), "K03" => caches::k03(),
        "L01" => lambert::l01(),
        "U01" => system::u01(), "S01" => system::s01(), "S02" => system::s02(), "S03" => system::s03(),
        _ => return None,
    })
}
