//! Builds parsers of the implementation for the drivers: with all the grammar
//! modules of the repository, and with autocomplete rules of the driver's own.
pub mod rows;

use hcommon::*;
use parser::autocomplete::AutocompleteRule;
use parser::parse_module::{ParseModule, ParseRule};
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
    collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
    function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use parser::syntax_tree::{SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameMap};
use std::rc::Rc;

/// A module of the grammar without its autocomplete rules
struct Silent(Rc<dyn ParseModule>);
impl ParseModule for Silent {
    fn get_module_name(&self) -> &str {
        self.0.get_module_name()
    }
    fn get_rules(&self) -> &[ParseRule] {
        self.0.get_rules()
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &[]
    }
}
/// The driver's autocomplete rules
struct Offers(Vec<AutocompleteRule>);
impl ParseModule for Offers {
    fn get_module_name(&self) -> &str {
        "Offers"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &[]
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.0
    }
}

pub struct Language {
    pub parser: Rc<MathParser>,
    pub names: SyntaxNodeNameMap,
    /// the repository's own autocomplete rules, in the order of its modules
    pub own_rules: Vec<AutocompleteRule>,
}
/// `rules`: None for the repository's own autocomplete rules
pub fn language(rules: Option<Vec<AutocompleteRule>>) -> Language {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &built_in));
    let arithmetic = Rc::new(ArithmeticRules::new(&mut m));
    let calculus = Rc::new(CalculusRules::new(&mut m));
    let collections = Rc::new(CollectionsRules::new(&mut m));
    let comparison = Rc::new(ComparisonRules::new(&mut m));
    let function = Rc::new(FunctionRules::new(&mut m, &built_in));
    let logic = Rc::new(LogicRules::new(&mut m));
    let string = Rc::new(StringRules::new(&mut m));
    let all: Vec<Rc<dyn ParseModule>> =
        vec![built_in.clone(), core, arithmetic, calculus, collections, comparison, function, logic, string];
    let own_rules = all.iter().flat_map(|x| x.get_autocomplete_rules().to_vec()).collect();
    let modules = match rules {
        None => all,
        Some(r) => {
            let mut v: Vec<Rc<dyn ParseModule>> = all.into_iter().map(|x| Rc::new(Silent(x)) as Rc<dyn ParseModule>).collect();
            v.push(Rc::new(Offers(r)));
            v
        }
    };
    Language { parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, modules))), names: m.get_rule_name_map().clone(), own_rules }
}

pub fn rule_of(v: &Value) -> AutocompleteRule {
    AutocompleteRule::new(text(&v["text"]), nodes_of(&v["result"]))
}
pub fn rule_json(r: &AutocompleteRule) -> Value {
    json!({"text":r.parser,"result":nodes_json(&r.result)})
}

/// The syntax tree as the specification reads it
pub fn syntax_json(names: &SyntaxNodeNameMap, n: &SyntaxNode) -> Value {
    let r = n.range();
    let name = names.get_reverse(n.name).map(|x| x.to_string()).unwrap_or_else(|| "?".into());
    let (kind, w, kids, syms) = match &n.children {
        SyntaxNodeChildren::NewRows(g) => {
            use input_tree::grid::Grid;
            ("rows", g.width(), g.values().map(|x| syntax_json(names, x)).collect::<Vec<_>>(), vec![])
        }
        SyntaxNodeChildren::Children(c) => ("kids", 0, c.iter().map(|x| syntax_json(names, x)).collect(), vec![]),
        SyntaxNodeChildren::Leaf(l) => ("leaf", 0, vec![], l.symbols.clone()),
    };
    json!({"name":name,"a":r.start,"b":r.end,"kind":kind,"w":w,"kids":kids,"syms":syms})
}
