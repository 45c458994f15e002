//! Scenarios of the findings that are listed in /verif/known-findings.txt. Each one is run in a
//! process of its own and says whether the finding is still there.

use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use xml_dom::level2::convert::*;
use xml_dom::level2::*;

/// Property, name of the scenario, what fails.
const SCENARIOS: &[(&str, &str, &str)] = &[
    ("T02", "fragment-insert", "appending a DocumentFragment with children to an element is refused with HierarchyRequest instead of moving the children"),
    ("A01", "unknown-entity", "reading an attribute whose value contains a reference to an undeclared entity panics"),
    ("S03", "instruction-end", "a processing instruction whose data contains ?> is written as markup that ends early"),
    #[cfg(feature = "parser")]
    ("P04", "deep-nesting", "input nested a million elements deep overflows the stack"),
];

/// Exit code 0 if the behaviour is right, 1 if the finding is there.
pub fn run(id: &str) -> i32 {
    let bad = match id {
        "fragment-insert" => {
            let document = get_implementation().create_document(None, Some("a"), None).unwrap();
            let mut root = document.document_element().unwrap();
            let mut fragment = document.create_document_fragment().unwrap();
            let child = document.create_element("b").unwrap();
            fragment.append_child(child.clone()).unwrap();
            let _ = root.append_child(fragment);
            root.child_nodes() != vec![child]
        }
        "unknown-entity" => std::panic::catch_unwind(|| {
            let document = get_implementation().create_document(None, Some("a"), None).unwrap();
            let mut root = document.document_element().unwrap();
            let root = as_element_mut(&mut root).unwrap();
            let _ = root.set_attribute("k", "&unknown;");
            let _ = root.get_attribute("k");
        })
        .is_err(),
        "instruction-end" => {
            let document = get_implementation().create_document(None, Some("a"), None).unwrap();
            match document.create_processing_instruction("t", Some("x?>y")) {
                Ok(pi) => pi.to_string().find("?>") != Some(pi.to_string().len() - 2),
                Err(_) => false,
            }
        }
        #[cfg(feature = "parser")]
        "deep-nesting" => {
            let deep = 1_000_000;
            let text = format!("{}{}", "<a>".repeat(deep), "</a>".repeat(deep));
            drop(xml_dom::parser::read_xml(&text));
            false
        }
        _ => false,
    };
    bad as i32
}

/// What to announce, and what fails without being listed.
pub fn examine(prop: &str, verif: &Path, _work: &Path) -> (Vec<String>, Vec<(String, String)>) {
    let list = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let (mut announced, mut unlisted) = (vec![], vec![]);
    for (p, id, what) in SCENARIOS {
        if *p != prop {
            continue;
        }
        let mut child = match Command::new(std::env::current_exe().expect("exe"))
            .args(["known", id])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => continue,
        };
        let end = Instant::now() + Duration::from_secs(60);
        let fails = loop {
            if let Ok(Some(st)) = child.try_wait() {
                break st.code() != Some(0);
            }
            if Instant::now() > end {
                let _ = child.kill();
                let _ = child.wait();
                break true;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        if !fails {
            continue;
        }
        if list.contains(&format!("known: property={} id={} ", p, id)) {
            announced.push(format!("KNOWN-FINDING: property={} {} ({})", p, what, id));
        } else {
            unlisted.push((id.to_string(), what.to_string()));
        }
    }
    (announced, unlisted)
}
