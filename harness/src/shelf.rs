//! Direct handles of a world type that no generated world knows.
use gecs::prelude::*;
use std::sync::OnceLock;

pub mod world {
    use gecs::prelude::*;
    #[derive(Clone)]
    pub struct Unit;
    ecs_world! {
        ecs_name!(ShelfWorld);
        #[archetype_id(0)]
        ecs_archetype!(Shelf0, Unit);
        #[archetype_id(1)]
        ecs_archetype!(Shelf1, Unit);
        #[archetype_id(2)]
        ecs_archetype!(Shelf2, Unit);
        #[archetype_id(3)]
        ecs_archetype!(Shelf3, Unit);
        #[archetype_id(4)]
        ecs_archetype!(Shelf4, Unit);
        #[archetype_id(5)]
        ecs_archetype!(Shelf5, Unit);
        #[archetype_id(6)]
        ecs_archetype!(Shelf6, Unit);
        #[archetype_id(7)]
        ecs_archetype!(Shelf7, Unit);
        #[archetype_id(8)]
        ecs_archetype!(Shelf8, Unit);
        #[archetype_id(9)]
        ecs_archetype!(Shelf9, Unit);
        #[archetype_id(10)]
        ecs_archetype!(Shelf10, Unit);
        #[archetype_id(11)]
        ecs_archetype!(Shelf11, Unit);
        #[archetype_id(16)]
        ecs_archetype!(Shelf16, Unit);
        #[archetype_id(32)]
        ecs_archetype!(Shelf32, Unit);
        #[archetype_id(63)]
        ecs_archetype!(Shelf63, Unit);
        #[archetype_id(64)]
        ecs_archetype!(Shelf64, Unit);
        #[archetype_id(65)]
        ecs_archetype!(Shelf65, Unit);
        #[archetype_id(66)]
        ecs_archetype!(Shelf66, Unit);
        #[archetype_id(67)]
        ecs_archetype!(Shelf67, Unit);
        #[archetype_id(72)]
        ecs_archetype!(Shelf72, Unit);
        #[archetype_id(77)]
        ecs_archetype!(Shelf77, Unit);
        #[archetype_id(126)]
        ecs_archetype!(Shelf126, Unit);
        #[archetype_id(127)]
        ecs_archetype!(Shelf127, Unit);
        #[archetype_id(128)]
        ecs_archetype!(Shelf128, Unit);
        #[archetype_id(129)]
        ecs_archetype!(Shelf129, Unit);
        #[archetype_id(130)]
        ecs_archetype!(Shelf130, Unit);
        #[archetype_id(131)]
        ecs_archetype!(Shelf131, Unit);
        #[archetype_id(135)]
        ecs_archetype!(Shelf135, Unit);
        #[archetype_id(136)]
        ecs_archetype!(Shelf136, Unit);
        #[archetype_id(191)]
        ecs_archetype!(Shelf191, Unit);
        #[archetype_id(192)]
        ecs_archetype!(Shelf192, Unit);
        #[archetype_id(200)]
        ecs_archetype!(Shelf200, Unit);
        #[archetype_id(205)]
        ecs_archetype!(Shelf205, Unit);
        #[archetype_id(253)]
        ecs_archetype!(Shelf253, Unit);
        #[archetype_id(254)]
        ecs_archetype!(Shelf254, Unit);
        #[archetype_id(255)]
        ecs_archetype!(Shelf255, Unit);
    }
}
use world::*;

static ALL: OnceLock<Vec<EntityDirectAny>> = OnceLock::new();

macro_rules! take {
    ($w:ident, $all:ident, $a:ident) => {
        for round in 0..3 {
            let es: Vec<Entity<$a>> = (0..4).map(|_| $w.create::<$a>((Unit,))).collect();
            for e in &es {
                $all.extend($w.to_direct(*e).map(|d| d.into_any()));
            }
            $w.destroy(es[round]);
            $w.destroy(es[3 - round]);
        }
    };
}

/// A direct handle whose archetype id is `near` or close to it.
pub fn direct(near: u8, sel: u32) -> EntityDirectAny {
    crate::alloc::user(|| {
        let all = ALL.get_or_init(|| {
            let mut w = ShelfWorld::new();
            let mut all = Vec::new();

            take!(w, all, Shelf0);
            take!(w, all, Shelf1);
            take!(w, all, Shelf2);
            take!(w, all, Shelf3);
            take!(w, all, Shelf4);
            take!(w, all, Shelf5);
            take!(w, all, Shelf6);
            take!(w, all, Shelf7);
            take!(w, all, Shelf8);
            take!(w, all, Shelf9);
            take!(w, all, Shelf10);
            take!(w, all, Shelf11);
            take!(w, all, Shelf16);
            take!(w, all, Shelf32);
            take!(w, all, Shelf63);
            take!(w, all, Shelf64);
            take!(w, all, Shelf65);
            take!(w, all, Shelf66);
            take!(w, all, Shelf67);
            take!(w, all, Shelf72);
            take!(w, all, Shelf77);
            take!(w, all, Shelf126);
            take!(w, all, Shelf127);
            take!(w, all, Shelf128);
            take!(w, all, Shelf129);
            take!(w, all, Shelf130);
            take!(w, all, Shelf131);
            take!(w, all, Shelf135);
            take!(w, all, Shelf136);
            take!(w, all, Shelf191);
            take!(w, all, Shelf192);
            take!(w, all, Shelf200);
            take!(w, all, Shelf205);
            take!(w, all, Shelf253);
            take!(w, all, Shelf254);
            take!(w, all, Shelf255);
            all
        });
        let id = match sel % 12 {
            b @ 0..=7 => near ^ (1 << b),
            8 | 9 => near,
            _ => (sel >> 4) as u8,
        };
        let n = all.iter().filter(|d| d.archetype_id() == id).count();
        match n {
            0 => all[(sel >> 8) as usize % all.len()],
            n => *all.iter().filter(|d| d.archetype_id() == id).nth((sel >> 8) as usize % n).unwrap(),
        }
    })
}
