//! The Scilla grammar as documented in the repository (BNF comments above each rule of the grammar
//! file), as data. Tree labels follow the syntax-tree node names.
use crate::grammar::{l, t, Alt, Sym};

const NAMES: &[&str] = &[
    "ByteString", "TypeNameIdentifier", "ImportedName", "ImportDeclarations", "MetaIdentifier", "VariableIdentifier",
    "BuiltinArguments", "ScillaType", "NonPolyType", "TypeArgument", "AddressType", "AddressTypeField", "TypeMapKey",
    "TypeMapEntry", "TypeMapValue", "TypeMapValueArguments", "TypeMapValueAllowingTypeArguments", "Program",
    "LibraryDefinition", "LibrarySingleDefinition", "TypedIdentifier", "TypeAnnotation", "TypeAlternativeClause",
    "ContractTypeArguments", "FullExpression", "PatternMatchExpressionClause", "Pattern", "ArgumentPattern", "MessageEntry",
    "AtomicExpression", "ValueLiteral", "Statement", "StatementBlock", "BlockchainFetchArguments", "ComponentId",
    "PatternMatchClause", "RemoteFetchStatement", "MapAccess", "ParameterPair", "ComponentParameters", "ComponentDefinition",
    "TransitionDefinition", "ProcedureDefinition", "ComponentBody", "ContractDefinition", "ContractField", "WithConstraint",
];

fn n(x: &str) -> Sym {
    Sym::N(NAMES.iter().position(|y| *y == x).unwrap_or_else(|| panic!("no category {x}")))
}
fn opt(b: Vec<Sym>) -> Sym {
    Sym::Opt(b)
}
fn star(b: Vec<Sym>) -> Sym {
    Sym::Star(b)
}
fn plus(b: Vec<Sym>) -> Sym {
    Sym::Plus(b)
}
/// positioned node
fn a(cat: &'static str, var: &'static str, syms: Vec<Sym>) -> Alt {
    Alt { label: Some((cat, var)), meta: true, syms }
}
/// node without a position of its own
fn b(cat: &'static str, var: &'static str, syms: Vec<Sym>) -> Alt {
    Alt { label: Some((cat, var)), meta: false, syms }
}
/// transparent
fn p(syms: Vec<Sym>) -> Alt {
    Alt { label: None, meta: false, syms }
}

pub fn categories() -> Vec<(&'static str, Vec<Alt>)> {
    let mut out: Vec<(&'static str, Vec<Alt>)> = Vec::new();
    for name in NAMES {
        out.push((name, alts(name)));
    }
    out
}

fn alts(name: &str) -> Vec<Alt> {
    let id = || l("<ID>");
    let spid = || l("<SPID>");
    match name {
        "ByteString" => vec![b("byte_str", "Type", vec![l("<BYSTRN>")])],
        "TypeNameIdentifier" => {
            let c = "type_name_identifier";
            vec![
                a(c, "TypeOrEnumLikeIdentifier", vec![l("<CID>")]),
                a(c, "ByteStringType", vec![n("ByteString")]),
                a(c, "EventType", vec![t("Event")]),
            ]
        }
        "ImportedName" => {
            let c = "imported_name";
            vec![
                a(c, "RegularImport", vec![n("TypeNameIdentifier")]),
                a(c, "AliasedImport", vec![n("TypeNameIdentifier"), t("as"), n("TypeNameIdentifier")]),
            ]
        }
        "ImportDeclarations" => vec![a(
            "import_declarations",
            "",
            vec![t("import"), plus(vec![n("ImportedName")]), star(vec![t("import"), n("ImportedName")])],
        )],
        "MetaIdentifier" => {
            let c = "meta_identifier";
            vec![
                a(c, "MetaName", vec![n("TypeNameIdentifier")]),
                a(c, "ByteString", vec![t("ByStr")]),
                a(c, "MetaNameInNamespace", vec![n("TypeNameIdentifier"), t("."), n("TypeNameIdentifier")]),
                a(c, "MetaNameInHexspace", vec![l("<HEX>"), t("."), n("TypeNameIdentifier")]),
            ]
        }
        "VariableIdentifier" => {
            let c = "variable_identifier";
            vec![
                a(c, "VariableName", vec![id()]),
                a(c, "SpecialIdentifier", vec![spid()]),
                a(c, "VariableInNamespace", vec![n("TypeNameIdentifier"), t("."), id()]),
            ]
        }
        "BuiltinArguments" => {
            let c = "builtin_arguments";
            vec![a(c, "", vec![plus(vec![n("VariableIdentifier")])]), a(c, "", vec![t("("), t(")")])]
        }
        "NonPolyType" => {
            let c = "scilla_type";
            vec![
                a(c, "GenericTypeWithArgs", vec![n("MetaIdentifier"), star(vec![n("TypeArgument")])]),
                a(c, "TypeVarType", vec![l("<TID>")]),
                a(c, "MapType", vec![t("Map"), n("TypeMapKey"), n("TypeMapValue")]),
                a(c, "EnclosedType", vec![t("("), n("ScillaType"), t(")")]),
                a(c, "ScillaAddresseType", vec![n("AddressType")]),
            ]
        }
        "ScillaType" => {
            let c = "scilla_type";
            vec![
                p(vec![n("NonPolyType")]),
                a(c, "FunctionType", vec![n("NonPolyType"), t("->"), n("ScillaType")]),
                a(c, "PolyFunctionType", vec![t("forall"), l("<TID>"), t("."), n("ScillaType")]),
            ]
        }
        "TypeArgument" => {
            let c = "type_argument";
            vec![
                a(c, "GenericTypeArgument", vec![n("MetaIdentifier")]),
                a(c, "TemplateTypeArgument", vec![l("<TID>")]),
                a(c, "EnclosedTypeArgument", vec![t("("), n("ScillaType"), t(")")]),
                a(c, "AddressTypeArgument", vec![n("AddressType")]),
                a(c, "MapTypeArgument", vec![t("Map"), n("TypeMapKey"), n("TypeMapValue")]),
            ]
        }
        "AddressType" => {
            let c = "address_type";
            let base = || n("TypeNameIdentifier");
            vec![
                a(c, "", vec![base(), t("with"), Sym::M(""), t("end")]),
                a(
                    c,
                    "",
                    vec![
                        base(),
                        t("with"),
                        Sym::M("contract"),
                        t("contract"),
                        opt(vec![n("AddressTypeField"), star(vec![t(","), n("AddressTypeField")])]),
                        t("end"),
                    ],
                ),
                a(c, "", vec![base(), t("with"), Sym::M("library"), t("library"), t("end")]),
                a(c, "", vec![base(), t("with"), spid(), t("end")]),
            ]
        }
        "AddressTypeField" => {
            vec![a("address_type_field", "", vec![t("field"), n("VariableIdentifier"), t(":"), n("ScillaType")])]
        }
        "TypeMapKey" => {
            let c = "type_map_key";
            vec![
                a(c, "GenericMapKey", vec![n("MetaIdentifier")]),
                a(c, "EnclosedGenericId", vec![t("("), n("MetaIdentifier"), t(")")]),
                a(c, "EnclosedAddressMapKeyType", vec![t("("), n("AddressType"), t(")")]),
                a(c, "AddressMapKeyType", vec![n("AddressType")]),
            ]
        }
        "TypeMapEntry" => vec![a("type_map_entry", "", vec![t("Map"), n("TypeMapKey"), n("TypeMapValue")])],
        "TypeMapValue" => {
            let c = "type_map_value";
            vec![
                a(c, "MapValueTypeOrEnumLikeIdentifier", vec![n("MetaIdentifier")]),
                a(c, "MapKeyValue", vec![n("TypeMapEntry")]),
                a(c, "MapValueParenthesizedType", vec![t("("), n("TypeMapValueAllowingTypeArguments"), t(")")]),
                a(c, "MapValueAddressType", vec![n("AddressType")]),
            ]
        }
        "TypeMapValueArguments" => {
            let c = "type_map_value_arguments";
            vec![
                a(c, "GenericMapValueArgument", vec![n("MetaIdentifier")]),
                a(c, "EnclosedTypeMapValue", vec![t("("), n("TypeMapValueAllowingTypeArguments"), t(")")]),
                a(c, "MapKeyValueType", vec![t("Map"), n("TypeMapKey"), n("TypeMapValue")]),
            ]
        }
        "TypeMapValueAllowingTypeArguments" => {
            let c = "type_map_value_allowing_type_arguments";
            vec![
                a(c, "TypeMapValueNoArgs", vec![n("TypeMapValue")]),
                a(c, "TypeMapValueWithArgs", vec![n("MetaIdentifier"), plus(vec![n("TypeMapValueArguments")])]),
            ]
        }
        "Program" => vec![b(
            "program",
            "",
            vec![
                t("scilla_version"),
                l("<NUM>"),
                opt(vec![n("ImportDeclarations")]),
                opt(vec![n("LibraryDefinition")]),
                n("ContractDefinition"),
            ],
        )],
        "LibraryDefinition" => vec![a(
            "library_definition",
            "",
            vec![t("library"), n("TypeNameIdentifier"), star(vec![n("LibrarySingleDefinition")])],
        )],
        "LibrarySingleDefinition" => {
            let c = "library_single_definition";
            vec![
                a(c, "LetDefinition", vec![t("let"), id(), opt(vec![n("TypeAnnotation")]), t("="), n("FullExpression")]),
                a(c, "TypeDefinition", vec![t("type"), n("TypeNameIdentifier")]),
                a(
                    c,
                    "TypeDefinition",
                    vec![t("type"), n("TypeNameIdentifier"), t("="), plus(vec![n("TypeAlternativeClause")])],
                ),
            ]
        }
        "TypedIdentifier" => vec![a("typed_identifier", "", vec![id(), n("TypeAnnotation")])],
        "TypeAnnotation" => vec![a("type_annotation", "", vec![t(":"), n("ScillaType")])],
        "TypeAlternativeClause" => {
            let c = "type_alternative_clause";
            vec![
                a(c, "ClauseType", vec![t("|"), n("TypeNameIdentifier")]),
                a(c, "ClauseTypeWithArgs", vec![t("|"), n("TypeNameIdentifier"), t("of"), plus(vec![n("TypeArgument")])]),
            ]
        }
        "ContractTypeArguments" => {
            vec![a("contract_type_arguments", "", vec![t("{"), star(vec![n("TypeArgument")]), t("}")])]
        }
        "FullExpression" => {
            let c = "full_expression";
            vec![
                a(c, "ExpressionAtomic", vec![n("AtomicExpression")]),
                a(
                    c,
                    "LocalVariableDeclaration",
                    vec![
                        t("let"),
                        id(),
                        opt(vec![n("TypeAnnotation")]),
                        t("="),
                        n("FullExpression"),
                        t("in"),
                        n("FullExpression"),
                    ],
                ),
                a(
                    c,
                    "FunctionDeclaration",
                    vec![t("fun"), t("("), id(), n("TypeAnnotation"), t(")"), t("=>"), n("FullExpression")],
                ),
                a(c, "FunctionCall", vec![n("VariableIdentifier"), plus(vec![n("VariableIdentifier")])]),
                a(
                    c,
                    "ExpressionBuiltin",
                    vec![t("builtin"), id(), opt(vec![n("ContractTypeArguments")]), n("BuiltinArguments")],
                ),
                a(
                    c,
                    "Message",
                    vec![t("{"), n("MessageEntry"), star(vec![t(";"), n("MessageEntry")]), t("}")],
                ),
                a(
                    c,
                    "Match",
                    vec![t("match"), n("VariableIdentifier"), t("with"), plus(vec![n("PatternMatchExpressionClause")]), t("end")],
                ),
                a(
                    c,
                    "ConstructorCall",
                    vec![n("MetaIdentifier"), opt(vec![n("ContractTypeArguments")]), star(vec![n("VariableIdentifier")])],
                ),
                a(c, "TemplateFunction", vec![t("tfun"), l("<TID>"), t("=>"), n("FullExpression")]),
                a(c, "TApp", vec![t("@"), n("VariableIdentifier"), plus(vec![n("TypeArgument")])]),
            ]
        }
        "PatternMatchExpressionClause" => {
            vec![a("pattern_match_expression_clause", "", vec![t("|"), n("Pattern"), t("=>"), n("FullExpression")])]
        }
        "Pattern" => {
            let c = "pattern";
            vec![
                a(c, "Wildcard", vec![t("_")]),
                a(c, "Binder", vec![id()]),
                a(c, "Constructor", vec![n("MetaIdentifier"), star(vec![n("ArgumentPattern")])]),
            ]
        }
        "ArgumentPattern" => {
            let c = "argument_pattern";
            vec![
                a(c, "WildcardArgument", vec![t("_")]),
                a(c, "BinderArgument", vec![id()]),
                a(c, "ConstructorArgument", vec![n("MetaIdentifier")]),
                a(c, "PatternArgument", vec![t("("), n("Pattern"), t(")")]),
            ]
        }
        "MessageEntry" => {
            let c = "message_entry";
            vec![
                a(c, "MessageVariable", vec![n("VariableIdentifier"), t(":"), n("VariableIdentifier")]),
                a(c, "MessageLiteral", vec![n("VariableIdentifier"), t(":"), n("ValueLiteral")]),
            ]
        }
        "AtomicExpression" => {
            let c = "atomic_expression";
            vec![a(c, "AtomicSid", vec![n("VariableIdentifier")]), a(c, "AtomicLit", vec![n("ValueLiteral")])]
        }
        "ValueLiteral" => {
            let c = "value_literal";
            vec![
                a(c, "LiteralInt", vec![n("TypeNameIdentifier"), l("<NUM>")]),
                a(c, "LiteralHex", vec![l("<HEX>")]),
                a(c, "LiteralString", vec![l("<STR>")]),
                a(c, "LiteralEmptyMap", vec![t("Emp"), n("TypeMapKey"), n("TypeMapValue")]),
            ]
        }
        "Statement" => {
            let c = "statement";
            let keys = || plus(vec![n("MapAccess")]);
            vec![
                b(c, "Accept", vec![t("accept")]),
                b(c, "Load", vec![id(), t("<-"), n("VariableIdentifier")]),
                b(c, "RemoteFetch", vec![n("RemoteFetchStatement")]),
                b(c, "Store", vec![id(), t(":="), n("VariableIdentifier")]),
                b(c, "Bind", vec![id(), t("="), n("FullExpression")]),
                b(
                    c,
                    "ReadFromBC",
                    vec![id(), t("<-"), t("&"), n("TypeNameIdentifier"), opt(vec![n("BlockchainFetchArguments")])],
                ),
                b(c, "MapGet", vec![id(), t("<-"), id(), keys()]),
                b(c, "MapGetExists", vec![id(), t("<-"), t("exists"), id(), keys()]),
                b(c, "MapUpdate", vec![id(), keys(), t(":="), n("VariableIdentifier")]),
                b(c, "MapUpdateDelete", vec![t("delete"), id(), keys()]),
                b(c, "Send", vec![t("send"), n("VariableIdentifier")]),
                b(c, "CreateEvnt", vec![t("event"), n("VariableIdentifier")]),
                b(c, "Throw", vec![t("throw"), opt(vec![n("VariableIdentifier")])]),
                b(
                    c,
                    "MatchStmt",
                    vec![t("match"), n("VariableIdentifier"), t("with"), plus(vec![n("PatternMatchClause")]), t("end")],
                ),
                b(c, "CallProc", vec![n("ComponentId"), star(vec![n("VariableIdentifier")])]),
                b(c, "Iterate", vec![t("forall"), n("VariableIdentifier"), n("ComponentId")]),
            ]
        }
        "StatementBlock" => {
            vec![a("statement_block", "", vec![n("Statement"), star(vec![t(";"), n("Statement")])])]
        }
        "BlockchainFetchArguments" => vec![b(
            "blockchain_fetch_arguments",
            "",
            vec![t("("), plus(vec![n("VariableIdentifier")]), t(")")],
        )],
        "ComponentId" => {
            let c = "component_id";
            vec![a(c, "WithTypeLikeName", vec![n("TypeNameIdentifier")]), a(c, "WithRegularId", vec![id()])]
        }
        "PatternMatchClause" => vec![a(
            "pattern_match_clause",
            "",
            vec![t("|"), n("Pattern"), t("=>"), opt(vec![n("StatementBlock")])],
        )],
        "RemoteFetchStatement" => {
            let c = "remote_fetch_statement";
            let keys = || plus(vec![n("MapAccess")]);
            let head = || vec![id(), t("<-"), t("&")];
            let with = |mut h: Vec<Sym>, r: Vec<Sym>| {
                h.extend(r);
                h
            };
            vec![
                b(c, "ReadStateMutable", with(head(), vec![id(), t("."), n("VariableIdentifier")])),
                b(c, "ReadStateMutableSpecialId", with(head(), vec![spid(), t("."), spid()])),
                b(c, "ReadStateMutableMapAccess", with(head(), vec![id(), t("."), id(), keys()])),
                b(c, "ReadStateMutableMapAccessExists", with(head(), vec![t("exists"), id(), t("."), id(), keys()])),
                b(
                    c,
                    "ReadStateMutableCastAddress",
                    with(head(), vec![n("VariableIdentifier"), t("as"), n("AddressType")]),
                ),
            ]
        }
        "MapAccess" => vec![a("map_access", "", vec![t("["), n("VariableIdentifier"), t("]")])],
        "ParameterPair" => vec![a("parameter_pair", "", vec![n("TypedIdentifier")])],
        "ComponentParameters" => {
            let c = "component_parameters";
            vec![
                a(c, "", vec![t("("), t(")")]),
                a(c, "", vec![t("("), n("ParameterPair"), star(vec![t(","), n("ParameterPair")]), t(")")]),
            ]
        }
        "ComponentDefinition" => {
            let c = "component_definition";
            vec![
                a(c, "TransitionComponent", vec![n("TransitionDefinition")]),
                a(c, "ProcedureComponent", vec![n("ProcedureDefinition")]),
            ]
        }
        "TransitionDefinition" => vec![a(
            "transition_definition",
            "",
            vec![t("transition"), n("ComponentId"), n("ComponentParameters"), n("ComponentBody")],
        )],
        "ProcedureDefinition" => vec![a(
            "procedure_definition",
            "",
            vec![t("procedure"), n("ComponentId"), n("ComponentParameters"), n("ComponentBody")],
        )],
        "ComponentBody" => vec![a("component_body", "", vec![opt(vec![n("StatementBlock")]), t("end")])],
        "ContractDefinition" => vec![a(
            "contract_definition",
            "",
            vec![
                t("contract"),
                n("TypeNameIdentifier"),
                n("ComponentParameters"),
                opt(vec![n("WithConstraint")]),
                star(vec![n("ContractField")]),
                star(vec![n("ComponentDefinition")]),
            ],
        )],
        "ContractField" => vec![a("contract_field", "", vec![t("field"), n("TypedIdentifier"), t("="), n("FullExpression")])],
        "WithConstraint" => vec![a("with_constraint", "", vec![t("with"), n("FullExpression"), t("=>")])],
        other => panic!("no rule for {other}"),
    }
}
