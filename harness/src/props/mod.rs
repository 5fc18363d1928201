use crate::Prop;

mod accept;
mod blocks;
mod cli;
mod common;
mod containers;
mod docs;
mod errors;
mod faults;
mod keys;
mod merging;
mod nodes;
mod numbers;
mod pieces;
mod reading;
mod scan;
mod serde;
mod strings;
mod total;
mod values;

pub use total::fresh_call;

pub fn all() -> &'static [Prop] {
    static ALL: &[Prop] = &[
        total::C01,
        docs::C02,
        accept::C03,
        accept::C04,
        docs::C05,
        strings::C06,
        strings::C07,
        numbers::C08,
        numbers::C09,
        strings::C10,
        docs::C11,
        reading::C12,
        reading::C13,
        blocks::C14,
        blocks::C15,
        blocks::C16,
        keys::C17,
        accept::C18,
        merging::C19,
        containers::C20,
        values::C21,
        serde::C22,
        serde::C23,
        serde::C24,
        serde::C25,
        common::C26,
        cli::C27,
        scan::C28,
        total::C29,
        errors::C30,
        pieces::C31,
        nodes::C32,
        nodes::C33,
        faults::C34,
    ];
    ALL
}
