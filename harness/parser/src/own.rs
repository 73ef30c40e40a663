//! Parsers built from selections of grammar modules, and modules of the driver's
//! own, registered through the interface for grammar modules: operators of every
//! kind of associativity ("own"), and rules that claim what others claim ("one",
//! "two"). Mirrors the modules of spec/Parser.tla.
use hlang::Language;
use parser::autocomplete::AutocompleteRule;
use parser::make_parser::{just_operator_parser, just_symbol_parser};
use parser::parse_module::*;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
    collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
    function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use parser::syntax_tree::PathIdentifier;
use std::rc::Rc;

struct Own(&'static str, Vec<ParseRule>);
impl ParseModule for Own {
    fn get_module_name(&self) -> &str {
        self.0
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.1
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &[]
    }
}

fn module(which: &str, m: &mut ParseModules, built_in: &Rc<BuiltInRules>) -> Rc<dyn ParseModule> {
    let title = match which { "own" => "Own", "one" => "One", "crowd" => "Crowd", _ => "Two" };
    match which {
        "core" => return Rc::new(CoreRules::new(m, built_in)),
        "arithmetic" => return Rc::new(ArithmeticRules::new(m)),
        "calculus" => return Rc::new(CalculusRules::new(m)),
        "collections" => return Rc::new(CollectionsRules::new(m)),
        "comparison" => return Rc::new(ComparisonRules::new(m)),
        "function" => return Rc::new(FunctionRules::new(m, built_in)),
        "logic" => return Rc::new(LogicRules::new(m)),
        "string" => return Rc::new(StringRules::new(m)),
        "own" | "one" | "two" | "crowd" => (),
        x => panic!("HARNESS: module {x}"),
    }
    let mut name = |s: &str| m.with_rule_name(PathIdentifier::new(vec![title.into(), s.into()]));
    let rules = match which {
        "own" => vec![
            prefix_rule(name("Minus"), 150, just_operator_parser("-")),
            prefix_rule(name("Tilde"), 50, just_operator_parser("~")),
            prefix_rule(name("Escaped"), 300, just_operator_parser(vec!["\\", "q"])),
            left_infix_rule(name("Plus"), 100, just_operator_parser("+")),
            left_infix_rule(name("Times"), 200, just_operator_parser("*")),
            left_infix_rule(name("Define"), 30, just_operator_parser(vec![":", "="])),
            right_infix_rule(name("To"), 100, just_operator_parser("<")),
            right_infix_rule(name("Power"), 200, just_operator_parser(">")),
            postfix_rule(name("Bang"), 150, just_operator_parser("!")),
            postfix_rule(name("Maybe"), 50, just_operator_parser("?")),
            postfix_rule(name("Norm"), 70, just_operator_parser(vec!["|", "|"])),
        ],
        "one" => vec![
            prefix_rule(name("Minus"), 50, just_operator_parser("-")),
            prefix_rule(name("Letter"), 60, just_operator_parser("l")),
            left_infix_rule(name("Hash"), 100, just_operator_parser("#")),
            right_infix_rule(name("Plus"), 300, just_operator_parser("+")),
            postfix_rule(name("Bang"), 50, just_operator_parser("!")),
            atom_rule(name("Star"), just_symbol_parser("∞")),
        ],
        // (no rules, but a name for each of many)
        "crowd" => (0..300).map(|i| name_only_rule(name(&format!("R{i}")))).collect(),
        _ => vec![
            right_infix_rule(name("Hash"), 250, just_operator_parser("#")),
            left_infix_rule(name("hash"), 20, just_operator_parser(vec!["#", "#"])),
            postfix_rule(name("Bang"), 900, just_operator_parser("!")),
            postfix_rule(name("Double"), 30, just_operator_parser(vec!["!", "!"])),
        ],
    };
    // a module may be called like another one
    Rc::new(Own(if which == "own" || which == "crowd" { title } else { "Twin" }, rules))
}

pub struct Selection {
    pub language: Language,
    /// of the built in module and of the selected ones: the name, the names of
    /// the rules, and whether these lead back to the rules
    pub modules: Vec<(String, Vec<String>, bool)>,
}
pub fn selection(which: &[&str]) -> Selection {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut all: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    for x in which {
        let x = module(x, &mut m, &built_in);
        all.push(x);
    }
    let names = m.get_rule_name_map().clone();
    let modules = all
        .iter()
        .map(|x| {
            let ids: Vec<_> = x.get_rules().iter().filter_map(|r| r.rule_name().cloned()).collect();
            let paths: Vec<_> = ids.iter().map(|i| names.get_reverse(*i)).collect();
            let back = ids.iter().zip(&paths).all(|(i, p)| p.map(|p| names.get(p) == Some(*i) && m.get_rule_name(p.clone()) == *i) == Some(true));
            (x.get_module_name().to_string(), paths.iter().map(|p| p.map(|p| p.to_string()).unwrap_or("?".into())).collect(), back)
        })
        .collect();
    let own_rules = all.iter().flat_map(|x| x.get_autocomplete_rules().to_vec()).collect();
    let language = Language { parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, all))), names, own_rules };
    Selection { language, modules }
}
pub fn language() -> Language {
    selection(&["core", "function", "own"]).language
}
