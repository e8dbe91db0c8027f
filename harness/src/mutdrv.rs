//! Driving the library: counting, mutating and printing.
use crate::props_sol::{lang, print_ast};
use crate::runner::guarded;
use mutagenyx_lib::language_interface::MutableLanguage;
use mutagenyx_lib::mutation::{get_all_mutation_algorithms, MutationType};
use mutagenyx_lib::permissions::*;
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;
use rand::SeedableRng;
use rand_pcg::Pcg64;
use std::collections::HashMap;

pub struct Drv {
    pub l: Box<dyn MutableLanguage>,
    pub algs: Vec<MutationType>,
}

/// The permissions the command line tool builds for a list of function names.
pub fn perms(functions: &[String]) -> Permissions {
    let mut p = Permissions::new();
    if functions.is_empty() {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Any(Permission::Allow)));
    }
    for f in functions {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Name(PermissionObject::Value(f.clone(), Permission::Allow))));
        p.add_permission(PermissionAction::Mutate(PermissionScope::Children(PermissionObject::Value(f.clone(), Permission::Allow))));
    }
    p.add_permission(PermissionAction::Visit(PermissionScope::Any(Permission::Allow)));
    p
}

pub fn alg_names() -> Vec<String> {
    let mut v: Vec<String> = get_all_mutation_algorithms().iter().map(|a| a.to_string()).collect();
    v.sort();
    v
}

pub struct Mutant {
    pub ast: SuperAST,
    pub node_id: Option<u64>,
    pub text: String,
}

impl Drv {
    pub fn new(l: Language) -> Drv {
        let mut o = lang(l);
        let mut algs = get_all_mutation_algorithms();
        algs.sort_by_key(|a| a.to_string());
        let _ = o.select_mutators_for_mutation_types(&algs);
        Drv { l: o, algs }
    }

    pub fn alg(&self, name: &str) -> MutationType {
        *self.algs.iter().find(|a| a.to_string() == name).expect("algorithm")
    }

    /// candidates per algorithm name
    pub fn count(&mut self, ast: &SuperAST, p: &Permissions, seed: u64) -> Result<HashMap<String, usize>, String> {
        let l = &mut self.l;
        let r = guarded(|| {
            let mut rng = Pcg64::seed_from_u64(seed);
            l.count_mutable_nodes(ast, &mut rng, p).map_err(|e| format!("error: {}", e))
        });
        match r {
            Err(e) => Err(format!("panic: {}", e)),
            Ok(Err(e)) => Err(e),
            Ok(Ok(m)) => Ok(m.into_iter().filter(|x| x.1 > 0).map(|(k, v)| (k.to_string(), v)).collect()),
        }
    }

    pub fn mutate(&mut self, ast: &SuperAST, alg: &str, index: usize, seed: u64, p: &Permissions) -> Result<Mutant, String> {
        let a = self.alg(alg);
        let l = &mut self.l;
        let r = guarded(|| {
            let mut rng = Pcg64::seed_from_u64(seed);
            let paths = l.calculate_node_paths(ast, p).map_err(|e| format!("error: {}", e))?;
            l.mutate_ast(ast, &a, index, &mut rng, p, &paths).map_err(|e| format!("error: {}", e))
        });
        match r {
            Err(e) => Err(format!("panic: {}", e)),
            Ok(Err(e)) => Err(e),
            Ok(Ok(m)) => {
                let ast = match m.ast {
                    Some(a) => a,
                    None => return Err("no mutant returned".into()),
                };
                let text = print_ast(&ast).map_err(|e| format!("printing the mutant: {}", e))?;
                Ok(Mutant { ast, node_id: m.mutator_result.mutated_node_id, text })
            }
        }
    }
}
