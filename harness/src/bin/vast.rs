//! Checks on syntax trees: C05 C07 C08 C12 C13.
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::ast::{TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::{Lexer, SourcePosition};
use scilla_parser::parser::parser as p;
use scilla_parser::Contract;
use vcommon::choice::{hash64, Src};
use vcommon::dict;
use vcommon::grammar::{self, SampleCfg, Tree};
use vcommon::iface::*;
use vcommon::runner::{self, fail, guard, CaseResult, Check, Info, GENERATED};
use vcommon::tok::{self, kind, Laid, Pos, Style, Tok};

// ------------------------------------------------------------------------- the tree as plain data

type Span = (Pos, Pos);

/// What a syntax tree says, children in source order.
#[derive(Clone, Debug, PartialEq)]
enum Real {
    Leaf { text: String, span: Option<Span> },
    Node { cat: &'static str, var: &'static str, span: Option<Span>, kids: Vec<Real>, shown: Option<String> },
}

fn pos(s: &SourcePosition) -> Pos {
    Pos { offset: s.position, line: s.line, column: s.column }
}

impl Real {
    /// The same tree without positions.
    fn bare(&self) -> Real {
        match self {
            Real::Leaf { text, .. } => Real::Leaf { text: text.clone(), span: None },
            Real::Node { cat, var, kids, shown, .. } => {
                Real::Node { cat, var, span: None, kids: kids.iter().map(|k| k.bare()).collect(), shown: shown.clone() }
            }
        }
    }
    /// Identity of a node: everything below it with positions, but not its own position.
    fn id(&self) -> u64 {
        match self {
            Real::Leaf { text, .. } => hash64(text.as_bytes()),
            Real::Node { cat, var, kids, .. } => {
                let mut b = format!("{cat}/{var}");
                for k in kids {
                    b.push_str(&format!("/{:?}/{:x}", k.span(), k.id()));
                }
                hash64(b.as_bytes())
            }
        }
    }
    fn span(&self) -> Option<Span> {
        match self {
            Real::Leaf { span, .. } | Real::Node { span, .. } => *span,
        }
    }
    fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Real)) {
        f(self);
        if let Real::Node { kids, .. } = self {
            for k in kids {
                k.visit(f);
            }
        }
    }
    fn nodes(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |r| n += matches!(r, Real::Node { .. }) as usize);
        n
    }
}

trait Conv {
    fn conv(&self) -> Real;
}

impl<T: Conv> Conv for WithMetaData<T> {
    fn conv(&self) -> Real {
        let mut r = self.node.conv();
        let s = Some((pos(&self.start), pos(&self.end)));
        match &mut r {
            Real::Leaf { span, .. } | Real::Node { span, .. } => *span = s,
        }
        r
    }
}
impl<T: Conv> Conv for Box<T> {
    fn conv(&self) -> Real {
        (**self).conv()
    }
}
impl Conv for String {
    fn conv(&self) -> Real {
        Real::Leaf { text: self.clone(), span: None }
    }
}

/// Children.
trait Kids {
    fn put(&self, out: &mut Vec<Real>);
}
impl<T: Conv> Kids for T {
    fn put(&self, out: &mut Vec<Real>) {
        out.push(self.conv())
    }
}
struct All<'a, T>(&'a [T]);
impl<T: Conv> Kids for All<'_, T> {
    fn put(&self, out: &mut Vec<Real>) {
        out.extend(self.0.iter().map(|x| x.conv()))
    }
}
struct May<'a, T>(&'a Option<T>);
impl<T: Conv> Kids for May<'_, T> {
    fn put(&self, out: &mut Vec<Real>) {
        out.extend(self.0.iter().map(|x| x.conv()))
    }
}

fn node(cat: &'static str, var: &'static str, parts: &[&dyn Kids]) -> Real {
    let mut kids = vec![];
    for p in parts {
        p.put(&mut kids);
    }
    Real::Node { cat, var, span: None, kids, shown: None }
}

fn shown(mut r: Real, d: &dyn std::fmt::Display) -> Real {
    if let Real::Node { shown, .. } = &mut r {
        *shown = Some(d.to_string());
    }
    r
}

impl Conv for NodeByteStr {
    fn conv(&self) -> Real {
        let r = match self {
            NodeByteStr::Constant(s) => node("byte_str", "Constant", &[s]),
            NodeByteStr::Type(s) => node("byte_str", "Type", &[s]),
        };
        shown(r, self)
    }
}
impl Conv for NodeTypeNameIdentifier {
    fn conv(&self) -> Real {
        let c = "type_name_identifier";
        let r = match self {
            NodeTypeNameIdentifier::ByteStringType(x) => node(c, "ByteStringType", &[x]),
            NodeTypeNameIdentifier::EventType => node(c, "EventType", &[]),
            NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(x) => node(c, "TypeOrEnumLikeIdentifier", &[x]),
        };
        shown(r, self)
    }
}
impl Conv for NodeImportedName {
    fn conv(&self) -> Real {
        match self {
            NodeImportedName::RegularImport(a) => node("imported_name", "RegularImport", &[a]),
            NodeImportedName::AliasedImport(a, b) => node("imported_name", "AliasedImport", &[a, b]),
        }
    }
}
impl Conv for NodeImportDeclarations {
    fn conv(&self) -> Real {
        node("import_declarations", "", &[&All(&self.import_list)])
    }
}
impl Conv for NodeMetaIdentifier {
    fn conv(&self) -> Real {
        let c = "meta_identifier";
        let r = match self {
            NodeMetaIdentifier::MetaName(a) => node(c, "MetaName", &[a]),
            NodeMetaIdentifier::MetaNameInNamespace(a, b) => node(c, "MetaNameInNamespace", &[a, b]),
            NodeMetaIdentifier::MetaNameInHexspace(a, b) => node(c, "MetaNameInHexspace", &[a, b]),
            NodeMetaIdentifier::ByteString => node(c, "ByteString", &[]),
        };
        shown(r, self)
    }
}
impl Conv for NodeVariableIdentifier {
    fn conv(&self) -> Real {
        let c = "variable_identifier";
        let r = match self {
            NodeVariableIdentifier::VariableName(a) => node(c, "VariableName", &[a]),
            NodeVariableIdentifier::SpecialIdentifier(a) => node(c, "SpecialIdentifier", &[a]),
            NodeVariableIdentifier::VariableInNamespace(a, b) => node(c, "VariableInNamespace", &[a, b]),
        };
        shown(r, self)
    }
}
impl Conv for NodeBuiltinArguments {
    fn conv(&self) -> Real {
        node("builtin_arguments", "", &[&All(&self.arguments)])
    }
}
impl Conv for NodeTypeMapKey {
    fn conv(&self) -> Real {
        let c = "type_map_key";
        match self {
            NodeTypeMapKey::GenericMapKey(a) => node(c, "GenericMapKey", &[a]),
            NodeTypeMapKey::EnclosedGenericId(a) => node(c, "EnclosedGenericId", &[a]),
            NodeTypeMapKey::EnclosedAddressMapKeyType(a) => node(c, "EnclosedAddressMapKeyType", &[a]),
            NodeTypeMapKey::AddressMapKeyType(a) => node(c, "AddressMapKeyType", &[a]),
        }
    }
}
impl Conv for NodeTypeMapValue {
    fn conv(&self) -> Real {
        let c = "type_map_value";
        match self {
            NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => node(c, "MapValueTypeOrEnumLikeIdentifier", &[a]),
            NodeTypeMapValue::MapKeyValue(a) => node(c, "MapKeyValue", &[a]),
            NodeTypeMapValue::MapValueParenthesizedType(a) => node(c, "MapValueParenthesizedType", &[a]),
            NodeTypeMapValue::MapValueAddressType(a) => node(c, "MapValueAddressType", &[a]),
        }
    }
}
impl Conv for NodeTypeArgument {
    fn conv(&self) -> Real {
        let c = "type_argument";
        match self {
            NodeTypeArgument::EnclosedTypeArgument(a) => node(c, "EnclosedTypeArgument", &[a]),
            NodeTypeArgument::GenericTypeArgument(a) => node(c, "GenericTypeArgument", &[a]),
            NodeTypeArgument::TemplateTypeArgument(a) => node(c, "TemplateTypeArgument", &[a]),
            NodeTypeArgument::AddressTypeArgument(a) => node(c, "AddressTypeArgument", &[a]),
            NodeTypeArgument::MapTypeArgument(a, b) => node(c, "MapTypeArgument", &[a, b]),
        }
    }
}
impl Conv for NodeScillaType {
    fn conv(&self) -> Real {
        let c = "scilla_type";
        match self {
            NodeScillaType::GenericTypeWithArgs(a, b) => node(c, "GenericTypeWithArgs", &[a, &All(b)]),
            NodeScillaType::MapType(a, b) => node(c, "MapType", &[a, b]),
            NodeScillaType::FunctionType(a, b) => node(c, "FunctionType", &[a, b]),
            NodeScillaType::EnclosedType(a) => node(c, "EnclosedType", &[a]),
            NodeScillaType::ScillaAddresseType(a) => node(c, "ScillaAddresseType", &[a]),
            NodeScillaType::PolyFunctionType(a, b) => node(c, "PolyFunctionType", &[a, b]),
            NodeScillaType::TypeVarType(a) => node(c, "TypeVarType", &[a]),
        }
    }
}
impl Conv for NodeTypeMapEntry {
    fn conv(&self) -> Real {
        node("type_map_entry", "", &[&self.key, &self.value])
    }
}
impl Conv for NodeAddressTypeField {
    fn conv(&self) -> Real {
        node("address_type_field", "", &[&self.identifier, &self.type_name])
    }
}
impl Conv for NodeAddressType {
    fn conv(&self) -> Real {
        node("address_type", "", &[&self.identifier, &self.type_name, &All(&self.address_fields)])
    }
}
impl Conv for NodeFullExpression {
    fn conv(&self) -> Real {
        let c = "full_expression";
        match self {
            NodeFullExpression::LocalVariableDeclaration { identifier_name, expression, type_annotation, containing_expression } => {
                node(c, "LocalVariableDeclaration", &[identifier_name, &May(type_annotation), expression, containing_expression])
            }
            NodeFullExpression::FunctionDeclaration { identier_value, type_annotation, expression } => {
                node(c, "FunctionDeclaration", &[identier_value, type_annotation, expression])
            }
            NodeFullExpression::FunctionCall { function_name, argument_list } => {
                node(c, "FunctionCall", &[function_name, &All(argument_list)])
            }
            NodeFullExpression::ExpressionAtomic(a) => node(c, "ExpressionAtomic", &[a]),
            NodeFullExpression::ExpressionBuiltin { b, targs, xs } => node(c, "ExpressionBuiltin", &[b, &May(targs), xs]),
            NodeFullExpression::Message(a) => node(c, "Message", &[&All(a)]),
            NodeFullExpression::Match { match_expression, clauses } => node(c, "Match", &[match_expression, &All(clauses)]),
            NodeFullExpression::ConstructorCall { identifier_name, contract_type_arguments, argument_list } => {
                node(c, "ConstructorCall", &[identifier_name, &May(contract_type_arguments), &All(argument_list)])
            }
            NodeFullExpression::TemplateFunction { identifier_name, expression } => {
                node(c, "TemplateFunction", &[identifier_name, expression])
            }
            NodeFullExpression::TApp { identifier_name, type_arguments } => {
                node(c, "TApp", &[identifier_name, &All(type_arguments)])
            }
        }
    }
}
impl Conv for NodeMessageEntry {
    fn conv(&self) -> Real {
        match self {
            NodeMessageEntry::MessageLiteral(a, b) => node("message_entry", "MessageLiteral", &[a, b]),
            NodeMessageEntry::MessageVariable(a, b) => node("message_entry", "MessageVariable", &[a, b]),
        }
    }
}
impl Conv for NodePatternMatchExpressionClause {
    fn conv(&self) -> Real {
        node("pattern_match_expression_clause", "", &[&self.pattern, &self.expression])
    }
}
impl Conv for NodeAtomicExpression {
    fn conv(&self) -> Real {
        match self {
            NodeAtomicExpression::AtomicSid(a) => node("atomic_expression", "AtomicSid", &[a]),
            NodeAtomicExpression::AtomicLit(a) => node("atomic_expression", "AtomicLit", &[a]),
        }
    }
}
impl Conv for NodeContractTypeArguments {
    fn conv(&self) -> Real {
        node("contract_type_arguments", "", &[&All(&self.type_arguments)])
    }
}
impl Conv for NodeValueLiteral {
    fn conv(&self) -> Real {
        let c = "value_literal";
        match self {
            NodeValueLiteral::LiteralInt(a, b) => node(c, "LiteralInt", &[a, b]),
            NodeValueLiteral::LiteralHex(a) => node(c, "LiteralHex", &[a]),
            NodeValueLiteral::LiteralString(a) => node(c, "LiteralString", &[a]),
            NodeValueLiteral::LiteralEmptyMap(a, b) => node(c, "LiteralEmptyMap", &[a, b]),
        }
    }
}
impl Conv for NodeMapAccess {
    fn conv(&self) -> Real {
        node("map_access", "", &[&self.identifier_name])
    }
}
impl Conv for NodePattern {
    fn conv(&self) -> Real {
        match self {
            NodePattern::Wildcard => node("pattern", "Wildcard", &[]),
            NodePattern::Binder(a) => node("pattern", "Binder", &[a]),
            NodePattern::Constructor(a, b) => node("pattern", "Constructor", &[a, &All(b)]),
        }
    }
}
impl Conv for NodeArgumentPattern {
    fn conv(&self) -> Real {
        let c = "argument_pattern";
        match self {
            NodeArgumentPattern::WildcardArgument => node(c, "WildcardArgument", &[]),
            NodeArgumentPattern::BinderArgument(a) => node(c, "BinderArgument", &[a]),
            NodeArgumentPattern::ConstructorArgument(a) => node(c, "ConstructorArgument", &[a]),
            NodeArgumentPattern::PatternArgument(a) => node(c, "PatternArgument", &[a]),
        }
    }
}
impl Conv for NodePatternMatchClause {
    fn conv(&self) -> Real {
        node("pattern_match_clause", "", &[&self.pattern_expression, &May(&self.statement_block)])
    }
}
impl Conv for NodeBlockchainFetchArguments {
    fn conv(&self) -> Real {
        node("blockchain_fetch_arguments", "", &[&All(&self.arguments)])
    }
}
impl Conv for NodeStatement {
    fn conv(&self) -> Real {
        let c = "statement";
        match self {
            NodeStatement::Load { left_hand_side, right_hand_side } => node(c, "Load", &[left_hand_side, right_hand_side]),
            NodeStatement::RemoteFetch(a) => node(c, "RemoteFetch", &[a]),
            NodeStatement::Store { left_hand_side, right_hand_side } => node(c, "Store", &[left_hand_side, right_hand_side]),
            NodeStatement::Bind { left_hand_side, right_hand_side } => node(c, "Bind", &[left_hand_side, right_hand_side]),
            NodeStatement::ReadFromBC { left_hand_side, type_name, arguments } => {
                node(c, "ReadFromBC", &[left_hand_side, type_name, &May(arguments)])
            }
            NodeStatement::MapGet { left_hand_side, keys, right_hand_side } => {
                node(c, "MapGet", &[left_hand_side, right_hand_side, &All(keys)])
            }
            NodeStatement::MapGetExists { left_hand_side, keys, right_hand_side } => {
                node(c, "MapGetExists", &[left_hand_side, right_hand_side, &All(keys)])
            }
            NodeStatement::MapUpdate { left_hand_side, keys, right_hand_side } => {
                node(c, "MapUpdate", &[left_hand_side, &All(keys), right_hand_side])
            }
            NodeStatement::MapUpdateDelete { left_hand_side, keys } => node(c, "MapUpdateDelete", &[left_hand_side, &All(keys)]),
            NodeStatement::Accept => node(c, "Accept", &[]),
            NodeStatement::Send { identifier_name } => node(c, "Send", &[identifier_name]),
            NodeStatement::CreateEvnt { identifier_name } => node(c, "CreateEvnt", &[identifier_name]),
            NodeStatement::Throw { error_variable } => node(c, "Throw", &[&May(error_variable)]),
            NodeStatement::MatchStmt { variable, clauses } => node(c, "MatchStmt", &[variable, &All(clauses)]),
            NodeStatement::CallProc { component_id, arguments } => node(c, "CallProc", &[component_id, &All(arguments)]),
            NodeStatement::Iterate { identifier_name, component_id } => node(c, "Iterate", &[identifier_name, component_id]),
        }
    }
}
impl Conv for NodeRemoteFetchStatement {
    fn conv(&self) -> Real {
        let c = "remote_fetch_statement";
        match self {
            NodeRemoteFetchStatement::ReadStateMutable(x, y, z) => node(c, "ReadStateMutable", &[x, y, z]),
            NodeRemoteFetchStatement::ReadStateMutableSpecialId(x, y, z) => node(c, "ReadStateMutableSpecialId", &[x, y, z]),
            NodeRemoteFetchStatement::ReadStateMutableMapAccess(x, y, z, k) => {
                node(c, "ReadStateMutableMapAccess", &[x, y, z, &All(k)])
            }
            NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(x, y, z, k) => {
                node(c, "ReadStateMutableMapAccessExists", &[x, y, z, &All(k)])
            }
            NodeRemoteFetchStatement::ReadStateMutableCastAddress(x, y, z) => node(c, "ReadStateMutableCastAddress", &[x, y, z]),
        }
    }
}
impl Conv for NodeComponentId {
    fn conv(&self) -> Real {
        match self {
            NodeComponentId::WithTypeLikeName(a) => node("component_id", "WithTypeLikeName", &[a]),
            NodeComponentId::WithRegularId(a) => node("component_id", "WithRegularId", &[a]),
        }
    }
}
impl Conv for NodeComponentParameters {
    fn conv(&self) -> Real {
        node("component_parameters", "", &[&All(&self.parameters)])
    }
}
impl Conv for NodeParameterPair {
    fn conv(&self) -> Real {
        node("parameter_pair", "", &[&self.identifier_with_type])
    }
}
impl Conv for NodeComponentBody {
    fn conv(&self) -> Real {
        node("component_body", "", &[&May(&self.statement_block)])
    }
}
impl Conv for NodeStatementBlock {
    fn conv(&self) -> Real {
        node("statement_block", "", &[&All(&self.statements)])
    }
}
impl Conv for NodeTypedIdentifier {
    fn conv(&self) -> Real {
        node("typed_identifier", "", &[&self.identifier_name, &self.annotation])
    }
}
impl Conv for NodeTypeAnnotation {
    fn conv(&self) -> Real {
        node("type_annotation", "", &[&self.type_name])
    }
}
impl Conv for NodeProgram {
    fn conv(&self) -> Real {
        node(
            "program",
            "",
            &[&self.version, &May(&self.import_declarations), &May(&self.library_definition), &self.contract_definition],
        )
    }
}
impl Conv for NodeLibraryDefinition {
    fn conv(&self) -> Real {
        node("library_definition", "", &[&self.name, &All(&self.definitions)])
    }
}
impl Conv for NodeLibrarySingleDefinition {
    fn conv(&self) -> Real {
        let c = "library_single_definition";
        match self {
            NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression } => {
                node(c, "LetDefinition", &[variable_name, &May(type_annotation), expression])
            }
            NodeLibrarySingleDefinition::TypeDefinition(a, b) => {
                node(c, "TypeDefinition", &[a, &All(b.as_deref().unwrap_or(&[]))])
            }
        }
    }
}
impl Conv for NodeContractDefinition {
    fn conv(&self) -> Real {
        node(
            "contract_definition",
            "",
            &[&self.contract_name, &self.parameters, &May(&self.constraint), &All(&self.fields), &All(&self.components)],
        )
    }
}
impl Conv for NodeContractField {
    fn conv(&self) -> Real {
        node("contract_field", "", &[&self.typed_identifier, &self.right_hand_side])
    }
}
impl Conv for NodeWithConstraint {
    fn conv(&self) -> Real {
        node("with_constraint", "", &[&self.expression])
    }
}
impl Conv for NodeComponentDefinition {
    fn conv(&self) -> Real {
        let c = "component_definition";
        match self {
            NodeComponentDefinition::TransitionComponent(a) => node(c, "TransitionComponent", &[a]),
            NodeComponentDefinition::ProcedureComponent(a) => node(c, "ProcedureComponent", &[a]),
        }
    }
}
impl Conv for NodeProcedureDefinition {
    fn conv(&self) -> Real {
        node("procedure_definition", "", &[&self.name, &self.parameters, &self.body])
    }
}
impl Conv for NodeTransitionDefinition {
    fn conv(&self) -> Real {
        node("transition_definition", "", &[&self.name, &self.parameters, &self.body])
    }
}
impl Conv for NodeTypeAlternativeClause {
    fn conv(&self) -> Real {
        let c = "type_alternative_clause";
        match self {
            NodeTypeAlternativeClause::ClauseType(a) => node(c, "ClauseType", &[a]),
            NodeTypeAlternativeClause::ClauseTypeWithArgs(a, b) => node(c, "ClauseTypeWithArgs", &[a, &All(b)]),
        }
    }
}
impl Conv for NodeTypeMapValueArguments {
    fn conv(&self) -> Real {
        let c = "type_map_value_arguments";
        match self {
            NodeTypeMapValueArguments::EnclosedTypeMapValue(a) => node(c, "EnclosedTypeMapValue", &[a]),
            NodeTypeMapValueArguments::GenericMapValueArgument(a) => node(c, "GenericMapValueArgument", &[a]),
            NodeTypeMapValueArguments::MapKeyValueType(a, b) => node(c, "MapKeyValueType", &[a, b]),
        }
    }
}
impl Conv for NodeTypeMapValueAllowingTypeArguments {
    fn conv(&self) -> Real {
        let c = "type_map_value_allowing_type_arguments";
        match self {
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a) => node(c, "TypeMapValueNoArgs", &[a]),
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(a, b) => node(c, "TypeMapValueWithArgs", &[a, &All(b)]),
        }
    }
}

// ------------------------------------------------------------------------------ code under test

/// A parsed tree of any category.
trait Ast {
    fn real(&self) -> Real;
    fn walk(&self, v: &mut dyn AstConverting) -> Result<TraversalResult, String>;
    fn any(&self) -> &dyn std::any::Any;
    /// None: trees of different categories
    fn same(&self, other: &dyn Ast) -> Option<bool>;
    fn copy(&self) -> Box<dyn Ast>;
    /// Err: the comparison operators disagree; None: trees of different categories
    fn order(&self, other: &dyn Ast) -> Option<Result<Option<std::cmp::Ordering>, String>>;
}
impl<T: Conv + AstVisitor + PartialEq + PartialOrd + Clone + 'static> Ast for T {
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn same(&self, other: &dyn Ast) -> Option<bool> {
        let o = other.any().downcast_ref::<T>()?;
        #[allow(clippy::nonminimal_bool)]
        let (a, b) = (self == o, !(self != o));
        (a == b).then_some(a)
    }
    fn copy(&self) -> Box<dyn Ast> {
        Box::new(self.clone())
    }
    fn order(&self, other: &dyn Ast) -> Option<Result<Option<std::cmp::Ordering>, String>> {
        use std::cmp::Ordering::*;
        let o = other.any().downcast_ref::<T>()?;
        let r = self.partial_cmp(o);
        let ops = (self < o, self <= o, self > o, self >= o);
        let want = (r == Some(Less), matches!(r, Some(Less | Equal)), r == Some(Greater), matches!(r, Some(Greater | Equal)));
        Some(if ops == want { Ok(r) } else { Err(format!("compare as {r:?}, but <, <=, >, >= give {ops:?}")) })
    }
    fn real(&self) -> Real {
        self.conv()
    }
    fn walk(&self, v: &mut dyn AstConverting) -> Result<TraversalResult, String> {
        self.visit(v)
    }
}

/// Ok(None): rejected.
fn parse_cat(cat: &str, text: &str) -> Result<Option<Box<dyn Ast>>, String> {
    macro_rules! dispatch {
        ($($name:literal $parser:ident),* $(,)?) => {
            match cat {
                $($name => guard(|| {
                    let mut errors = vec![];
                    p::$parser::new().parse(&mut errors, Lexer::new(text)).ok().map(|t| Box::new(t) as Box<dyn Ast>)
                }),)*
                other => panic!("{other}"),
            }
        };
    }
    dispatch!(
        "Program" ProgramParser, "ByteString" ByteStringParser, "TypeNameIdentifier" TypeNameIdentifierParser,
        "ImportedName" ImportedNameParser, "ImportDeclarations" ImportDeclarationsParser,
        "MetaIdentifier" MetaIdentifierParser, "VariableIdentifier" VariableIdentifierParser,
        "BuiltinArguments" BuiltinArgumentsParser, "ScillaType" ScillaTypeParser, "TypeArgument" TypeArgumentParser,
        "AddressType" AddressTypeParser, "AddressTypeField" AddressTypeFieldParser, "TypeMapKey" TypeMapKeyParser,
        "TypeMapValue" TypeMapValueParser, "TypeMapValueArguments" TypeMapValueArgumentsParser,
        "TypeMapValueAllowingTypeArguments" TypeMapValueAllowingTypeArgumentsParser,
        "LibraryDefinition" LibraryDefinitionParser, "LibrarySingleDefinition" LibrarySingleDefinitionParser,
        "TypedIdentifier" TypedIdentifierParser, "TypeAnnotation" TypeAnnotationParser,
        "TypeAlternativeClause" TypeAlternativeClauseParser, "ContractTypeArguments" ContractTypeArgumentsParser,
        "FullExpression" FullExpressionParser, "PatternMatchExpressionClause" PatternMatchExpressionClauseParser,
        "Pattern" PatternParser, "ArgumentPattern" ArgumentPatternParser, "MessageEntry" MessageEntryParser,
        "AtomicExpression" AtomicExpressionParser, "ValueLiteral" ValueLiteralParser, "Statement" StatementParser,
        "StatementBlock" StatementBlockParser, "BlockchainFetchArguments" BlockchainFetchArgumentsParser,
        "ComponentId" ComponentIdParser, "PatternMatchClause" PatternMatchClauseParser,
        "RemoteFetchStatement" RemoteFetchStatementParser, "MapAccess" MapAccessParser,
        "ParameterPair" ParameterPairParser, "ComponentParameters" ComponentParametersParser,
        "ComponentDefinition" ComponentDefinitionParser, "TransitionDefinition" TransitionDefinitionParser,
        "ProcedureDefinition" ProcedureDefinitionParser, "ComponentBody" ComponentBodyParser,
        "ContractDefinition" ContractDefinitionParser, "ContractField" ContractFieldParser,
        "WithConstraint" WithConstraintParser,
    )
}

const CATS: &[&str] = &[
    "Program", "ByteString", "TypeNameIdentifier", "ImportedName", "ImportDeclarations", "MetaIdentifier", "VariableIdentifier",
    "BuiltinArguments", "ScillaType", "TypeArgument", "AddressType", "AddressTypeField", "TypeMapKey", "TypeMapValue",
    "TypeMapValueArguments", "TypeMapValueAllowingTypeArguments", "LibraryDefinition", "LibrarySingleDefinition", "TypedIdentifier",
    "TypeAnnotation", "TypeAlternativeClause", "ContractTypeArguments", "FullExpression", "PatternMatchExpressionClause", "Pattern",
    "ArgumentPattern", "MessageEntry", "AtomicExpression", "ValueLiteral", "Statement", "StatementBlock",
    "BlockchainFetchArguments", "ComponentId", "PatternMatchClause", "RemoteFetchStatement", "MapAccess", "ParameterPair",
    "ComponentParameters", "ComponentDefinition", "TransitionDefinition", "ProcedureDefinition", "ComponentBody",
    "ContractDefinition", "ContractField", "WithConstraint",
];

// ------------------------------------------------------------------------------------ generation

/// A category, a grammatical token sequence and the tree it stands for.
fn gen_tree(s: &mut Src) -> (&'static str, Vec<Tok>, Tree) {
    let cat = match s.weighted(&[3, 3, 2, 2, 10]) {
        0 => "Program",
        1 => "FullExpression",
        2 => "StatementBlock",
        3 => "ScillaType",
        _ => CATS[s.usize(CATS.len())],
    };
    let g = grammar::get();
    let mut toks = Vec::new();
    let size = [3, 12, 40, 120, 380][s.weighted(&[2, 5, 6, 2, 1])];
    let depth = 2 + s.usize(11);
    let mut trees = if dict::rarely(s, 8) {
        let steps = dict::edge(s, 300);
        g.sample_deep(s, g.cat(cat), &mut toks, steps)
    } else {
        g.sample(s, g.cat(cat), &mut toks, &SampleCfg { max_tokens: size, max_depth: depth })
    };
    assert_eq!(trees.len(), 1);
    for i in 1..toks.len() {
        if toks[i - 1].kind == kind("scilla_version") && toks[i].text.starts_with('-') {
            let v = toks[i].text.trim_start_matches('-').to_string();
            toks[i].text = v.clone();
            if let Tree::Node { kids, .. } = &mut trees[0] {
                kids[0] = Tree::Leaf { text: v, tok: Some(i) };
            }
        }
    }
    (cat, toks, trees.pop().unwrap())
}

/// Import lists with several names after a later `import` are ambiguous in the documentation, but
/// never sampled; what the sampler produces is all specified.
fn laid(s: &mut Src, toks: &[Tok]) -> Laid {
    let style = tok::gen_style(s);
    tok::layout(s, toks, style)
}

fn tree_classes(t: &Real) -> &'static str {
    match t.nodes() {
        0..=3 => "1-3 nodes",
        4..=15 => "4-15 nodes",
        16..=60 => "16-60 nodes",
        61..=200 => "61-200 nodes",
        _ => "more than 200 nodes",
    }
}

// ------------------------------------------------------------------------------------------- C08

fn brief(r: &Real) -> String {
    match r {
        Real::Leaf { text, .. } => format!("{text:?}"),
        Real::Node { cat, var, kids, .. } => {
            format!("{cat}.{var}({})", kids.iter().map(|k| brief(k)).collect::<Vec<_>>().join(", "))
        }
    }
}
fn brief_tree(r: &Tree) -> String {
    match r {
        Tree::Leaf { text, .. } => format!("{text:?}"),
        Tree::Node { cat, var, kids, .. } => {
            format!("{cat}.{var}({})", kids.iter().map(|k| brief_tree(k)).collect::<Vec<_>>().join(", "))
        }
    }
}

fn compare(want: &Tree, got: &Real, toks: &[Tok]) -> Result<(), String> {
    match (want, got) {
        (Tree::Leaf { text: a, .. }, Real::Leaf { text: b, .. }) => {
            if a != b {
                return Err(format!("{b:?} where {a:?} is written"));
            }
            Ok(())
        }
        (Tree::Node { cat, var, kids, toks: (a, b), .. }, Real::Node { cat: gc, var: gv, kids: gk, shown, .. }) => {
            if cat != gc || var != gv || kids.len() != gk.len() {
                return Err(format!("the source says\n  {}\nthe tree says\n  {}", brief_tree(want), brief(got)));
            }
            for (x, y) in kids.iter().zip(gk) {
                compare(x, y, toks).map_err(|e| format!("in {cat}.{var}: {e}"))?;
            }
            if let Some(d) = shown {
                let w: String = toks[*a..=*b].iter().map(|t| t.text.as_str()).collect();
                if *d != w {
                    return Err(format!("in {cat}.{var}: printed as {d:?}, written {w:?}"));
                }
            }
            Ok(())
        }
        _ => Err(format!("the source says\n  {}\nthe tree says\n  {}", brief_tree(want), brief(got))),
    }
}

fn c08(s: &mut Src, _: usize) -> CaseResult {
    let (cat, toks, want) = gen_tree(s);
    let l = laid(s, &toks);
    let got = match parse_cat(cat, &l.text) {
        Err(p) => return fail(format!("{cat}: panic: {p}"), l.text),
        Ok(None) => return fail(format!("{cat}: no tree for this grammatical text"), l.text),
        Ok(Some(t)) => t.real(),
    };
    if let Err(e) = compare(&want, &got, &toks) {
        return fail(format!("{cat}: {e}"), l.text);
    }
    Ok(Info {
        nontrivial: want.count_nodes() >= 4,
        classes: vec![cat, tree_classes(&got), if want.depth() > 12 { "deeper than 12" } else { "depth to 12" }],
        key: hash64(tok::plain(&toks).as_bytes()),
        sample: format!("{cat}: {}", l.text),
        evals: 1,
    })
}

// ------------------------------------------------------------------------------------------- C07

/// Positions where the trees agree in shape.
fn compare_spans(want: &Tree, got: &Real, l: &Laid, n: &mut u64) -> Result<(), String> {
    match (want, got) {
        (Tree::Leaf { tok: Some(t), .. }, Real::Leaf { span: Some(s), text }) => {
            *n += 1;
            if *s != l.spans[*t] {
                return Err(format!("{text:?} is reported at {s:?}, it stands at {:?}", l.spans[*t]));
            }
        }
        (Tree::Node { cat, var, kids, toks: (a, b), .. }, Real::Node { cat: gc, var: gv, kids: gk, span, .. }) => {
            if cat != gc || var != gv || kids.len() != gk.len() {
                return Ok(());
            }
            for (x, y) in kids.iter().zip(gk) {
                compare_spans(x, y, l, n).map_err(|e| format!("in {cat}.{var}: {e}"))?;
            }
            if let Some(s) = span {
                *n += 1;
                let w = (l.spans[*a].0, l.spans[*b].1);
                if *s != w {
                    return Err(format!("{cat}.{var} is reported at {s:?}, it spans {w:?}"));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// What holds of any tree: every position is that of some run of tokens, and lies inside the one
/// around it.
fn plausible_spans(got: &Real, starts: &std::collections::HashSet<(usize, usize, usize)>, ends: &std::collections::HashSet<(usize, usize, usize)>, outer: Option<Span>, n: &mut u64) -> Result<(), String> {
    let (what, kids): (String, &[Real]) = match got {
        Real::Leaf { text, .. } => (format!("{text:?}"), &[]),
        Real::Node { cat, var, kids, .. } => (format!("{cat}.{var}"), kids),
    };
    let mut around = outer;
    // the kind of an address type has no position of its own unless it is written as an identifier
    let marker = matches!(got, Real::Leaf { text, .. } if ["", "contract", "library"].contains(&text.as_str()));
    if let (Some(s), false) = (got.span(), marker) {
        *n += 1;
        let k = |p: Pos| (p.offset, p.line, p.column);
        if !starts.contains(&k(s.0)) || !ends.contains(&k(s.1)) || s.0.offset >= s.1.offset {
            return Err(format!("{what} is reported at {s:?}, which is no run of tokens"));
        }
        if let Some(o) = outer {
            if s.0.offset < o.0.offset || s.1.offset > o.1.offset {
                return Err(format!("{what} is reported at {s:?}, outside of {o:?} around it"));
            }
        }
        around = Some(s);
    }
    let mut last = 0;
    for c in kids {
        plausible_spans(c, starts, ends, around, n)?;
        if let (Some(s), true) = (c.span(), matches!(c, Real::Node { .. })) {
            if s.0.offset < last {
                return Err(format!("in {what}: overlapping or misordered children"));
            }
            last = s.1.offset;
        }
    }
    Ok(())
}

/// Positions of tokens.
fn check_tokens(text: &str, n: &mut u64) -> Result<(), String> {
    let want = tok::ref_lex(text);
    let unknown = want.iter().position(|t| t.kind == kind("<UNKNOWN>"));
    let good = unknown.map(|i| &want[..i]).unwrap_or(&want[..]);
    let toks: Vec<(Pos, String, Pos)> = guard(|| {
        let mut o = vec![];
        for t in Lexer::new(text).take(text.len() + 1) {
            match t {
                Ok((a, t, b)) => o.push((pos(&a), String::from(t), pos(&b))),
                Err(_) => break,
            }
            // after the first thing that is no token nothing is specified
            if unknown == Some(o.len()) {
                break;
            }
        }
        o
    })
    .map_err(|p| format!("panic while tokenising: {p}"))?;
    let mut last = 0;
    for (a, t, b) in &toks {
        *n += 1;
        if text.get(a.offset..b.offset) != Some(t.as_str()) {
            return Err(format!("token {t:?} is reported at {a:?}..{b:?}, where there is {:?}", text.get(a.offset..b.offset)));
        }
        if a.offset < last {
            return Err(format!("token {t:?} at {a:?} overlaps the one before it"));
        }
        last = b.offset;
        let w = tok::positions(text, &[(a.offset, b.offset)])[0];
        if (*a, *b) != w {
            return Err(format!("token {t:?} is reported at {a:?}..{b:?}, by its offsets it is at {:?}..{:?}", w.0, w.1));
        }
    }
    // where the texts agree with the reference, the places have to agree as well
    if toks.len() == good.len() && toks.iter().zip(good).all(|(x, y)| x.1 == text[y.start..y.end]) {
        for (x, y) in toks.iter().zip(good) {
            if x.0.offset != y.start {
                return Err(format!("token {:?} is reported at {:?}, it stands at {}", x.1, x.0, y.start));
            }
        }
    }
    Ok(())
}

fn c07(s: &mut Src, fixed: usize) -> CaseResult {
    let mut n = 0;
    let mut classes = vec![];
    let text;
    let mut nontrivial = true;
    if fixed != GENERATED || s.chance(12) {
        // texts without a known tree: contracts and examples
        text = if fixed != GENERATED {
            classes.push("example contract");
            corpus()[fixed].1.clone()
        } else if s.chance(50) {
            let (m, _) = gen_contract(s, Shape { small: true, depth: 3 });
            classes.push("contract");
            laid(s, &m.toks()).text
        } else {
            // any lexemes
            let mut toks = vec![];
            for _ in 0..1 + s.usize(30) {
                let mut t = random_tok(s, &toks);
                if t.kind == kind("<STR>") && s.chance(50) {
                    t.text = tok::gen_string(s, true);
                }
                toks.push(t);
            }
            classes.push("any lexemes");
            laid(s, &toks).text
        };
        if let Err(e) = check_tokens(&text, &mut n) {
            return fail(e, text);
        }
        if let Ok(Some(t)) = parse_cat("Program", &text) {
            let r = tok::ref_lex(&text);
            let spans = tok::positions(&text, &r.iter().map(|t| (t.start, t.end)).collect::<Vec<_>>());
            let k = |p: &Pos| (p.offset, p.line, p.column);
            let starts = spans.iter().map(|x| k(&x.0)).collect();
            let ends = spans.iter().map(|x| k(&x.1)).collect();
            if let Err(e) = plausible_spans(&t.real(), &starts, &ends, None, &mut n) {
                return fail(e, text);
            }
        }
    } else {
        let (cat, mut toks, want) = gen_tree(s);
        let multi = s.chance(30);
        if multi {
            for t in toks.iter_mut() {
                if t.kind == kind("<STR>") {
                    t.text = tok::gen_string(s, true);
                }
            }
        }
        let l = laid(s, &toks);
        text = l.text.clone();
        if let Err(e) = check_tokens(&text, &mut n) {
            return fail(e, text);
        }
        match parse_cat(cat, &text) {
            Err(_) | Ok(None) => {
                classes.push("no tree (not judged)");
                nontrivial = false;
            }
            Ok(Some(t)) => {
                if let Err(e) = compare_spans(&want, &t.real(), &l, &mut n) {
                    return fail(format!("{cat}: {e}"), text);
                }
            }
        }
        classes.push(cat);
        if l.has_comment {
            classes.push("with comments");
        }
        if toks.iter().any(|t| t.kind == kind("<STR>") && t.text.contains('\n')) {
            classes.push("with multi-line strings");
        }
    }
    if text.contains('\n') {
        classes.push("several lines");
    }
    if !text.is_ascii() {
        classes.push("non-ASCII");
    }
    Ok(Info { nontrivial: nontrivial && text.contains('\n'), classes, key: hash64(text.as_bytes()), sample: text, evals: n })
}

// ------------------------------------------------------------------------------------------- C05

#[derive(PartialEq)]
enum Outcome {
    Panic(String),
    Rejected,
    Tree(Real),
}
impl Outcome {
    fn say(&self) -> String {
        match self {
            Outcome::Panic(p) => format!("panic: {p}"),
            Outcome::Rejected => "rejected".into(),
            Outcome::Tree(r) => brief(r),
        }
    }
}

fn outcome(cat: &str, text: &str) -> Outcome {
    match parse_cat(cat, text) {
        Err(p) => Outcome::Panic(p),
        Ok(None) => Outcome::Rejected,
        Ok(Some(t)) => Outcome::Tree(t.real().bare()),
    }
}

fn summary(text: &str) -> String {
    match guard(|| text.parse::<Contract>()) {
        Err(p) => format!("panic: {p}"),
        Ok(Err(_)) => "rejected".into(),
        Ok(Ok(c)) => format!("{c:?}"),
    }
}

fn c05(s: &mut Src, fixed: usize) -> CaseResult {
    let mut how = "grammatical";
    let (cat, toks): (&'static str, Vec<Tok>) = if fixed != GENERATED {
        how = "example contract";
        ("Program", tok::lex_to_toks(&corpus()[fixed].1))
    } else if s.chance(35) {
        let (m, _) = gen_contract(s, Shape { small: true, depth: 4 });
        ("Program", m.toks())
    } else {
        let (c, t, _) = gen_tree(s);
        (c, t)
    };
    let mut toks = toks;
    if fixed == GENERATED && s.chance(25) {
        how = damage(s, &mut toks);
    }
    // the first one with single spaces, unless the case says otherwise
    let a = if s.chance(60) { tok::layout(s, &toks, Style::Plain) } else { laid(s, &toks) };
    let rounds = 1 + s.usize(3);
    let want = outcome(cat, &a.text);
    let want_summary = if cat == "Program" { Some(summary(&a.text)) } else { None };
    let mut classes = vec![cat, how, if want == Outcome::Rejected { "rejected" } else { "accepted" }];
    let mut texts = vec![a.text.clone()];
    for r in 0..rounds {
        let style = match r {
            0 => [Style::Minimal, Style::Blanks, Style::Comments, Style::Mixed][s.usize(4)],
            _ => tok::gen_style(s),
        };
        let b = tok::layout(s, &toks, style);
        if b.has_comment {
            classes.push("with comments");
        }
        let got = outcome(cat, &b.text);
        if got != want {
            return fail(
                format!("{cat}: the layouts below differ\n  first:  {}\n  second: {}", want.say(), got.say()),
                format!("{}\n=== second layout\n{}", a.text, b.text),
            );
        }
        if let Some(w) = &want_summary {
            let g = summary(&b.text);
            if g != *w {
                return fail(
                    format!("the contract's summary differs\n  first:  {w}\n  second: {g}"),
                    format!("{}\n=== second layout\n{}", a.text, b.text),
                );
            }
        }
        texts.push(b.text);
    }
    classes.sort();
    classes.dedup();
    Ok(Info {
        nontrivial: toks.len() >= 2 && texts.iter().any(|t| *t != texts[0]),
        classes,
        key: hash64(texts.join("\u{1}").as_bytes()),
        sample: texts.last().unwrap().clone(),
        evals: rounds as u64 + 1,
    })
}

// -------------------------------------------------------------------------------------- C12, C13

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Push(Span),
    Pop,
    Enter(&'static str, u64),
    Exit(&'static str, u64),
}

/// What the visitor answers at its k-th enter or leave event.
#[derive(Clone, Default)]
struct Plan {
    /// fail at this event
    fail: Option<usize>,
    /// skip at enter events picked by this seed with this percentage
    skip: Option<(u32, u32)>,
}
impl Plan {
    fn skips(&self, k: usize) -> bool {
        match self.skip {
            Some((seed, p)) => hash64(format!("{seed}/{k}").as_bytes()) % 100 < p as u64,
            None => false,
        }
    }
}

const BROKE: &str = "e";

/// The events the documentation promises; Err when the plan made the walk fail.
fn expected(r: &Real, plan: &Plan, k: &mut usize, out: &mut Vec<Ev>) -> Result<(), ()> {
    let Real::Node { cat, span, kids, .. } = r else { return Ok(()) };
    if let Some(s) = span {
        out.push(Ev::Push(*s));
    }
    let mut go = || -> Result<(), ()> {
        let id = r.id();
        out.push(Ev::Enter(cat, id));
        let me = *k;
        *k += 1;
        if plan.fail == Some(me) {
            return Err(());
        }
        if plan.skips(me) {
            return Ok(());
        }
        for c in kids {
            expected(c, plan, k, out)?;
        }
        out.push(Ev::Exit(cat, id));
        let me = *k;
        *k += 1;
        if plan.fail == Some(me) {
            return Err(());
        }
        Ok(())
    };
    let ret = go();
    if span.is_some() {
        out.push(Ev::Pop);
    }
    ret
}

/// A visitor that writes everything down and follows a plan.
struct Rec {
    plan: Plan,
    msg: String,
    k: usize,
    evs: Vec<Ev>,
}
impl Rec {
    fn new(plan: Plan, msg: String) -> Self {
        Rec { plan, msg, k: 0, evs: vec![] }
    }
    fn on(&mut self, mode: TreeTraversalMode, r: Real) -> Result<TraversalResult, String> {
        let Real::Node { cat, .. } = &r else { unreachable!() };
        let enter = matches!(mode, TreeTraversalMode::Enter);
        self.evs.push(if enter { Ev::Enter(cat, r.id()) } else { Ev::Exit(cat, r.id()) });
        let me = self.k;
        self.k += 1;
        if self.plan.fail == Some(me) {
            return Err(self.msg.clone());
        }
        if enter && self.plan.skips(me) {
            return Ok(TraversalResult::SkipChildren);
        }
        Ok(TraversalResult::Continue)
    }
}

macro_rules! emits {
    ($($f:ident $t:ident,)*) => {
        $(fn $f(&mut self, mode: TreeTraversalMode, node: &$t) -> Result<TraversalResult, String> {
            self.on(mode, node.conv())
        })*
    };
}

impl AstConverting for Rec {
    fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
        self.evs.push(Ev::Push((pos(start), pos(end))));
    }
    fn pop_source_position(&mut self) {
        self.evs.push(Ev::Pop);
    }
    emits!(
        emit_byte_str NodeByteStr,
        emit_type_name_identifier NodeTypeNameIdentifier,
        emit_imported_name NodeImportedName,
        emit_import_declarations NodeImportDeclarations,
        emit_meta_identifier NodeMetaIdentifier,
        emit_variable_identifier NodeVariableIdentifier,
        emit_builtin_arguments NodeBuiltinArguments,
        emit_type_map_key NodeTypeMapKey,
        emit_type_map_value NodeTypeMapValue,
        emit_type_argument NodeTypeArgument,
        emit_scilla_type NodeScillaType,
        emit_type_map_entry NodeTypeMapEntry,
        emit_address_type_field NodeAddressTypeField,
        emit_address_type NodeAddressType,
        emit_full_expression NodeFullExpression,
        emit_message_entry NodeMessageEntry,
        emit_pattern_match_expression_clause NodePatternMatchExpressionClause,
        emit_atomic_expression NodeAtomicExpression,
        emit_contract_type_arguments NodeContractTypeArguments,
        emit_value_literal NodeValueLiteral,
        emit_map_access NodeMapAccess,
        emit_pattern NodePattern,
        emit_argument_pattern NodeArgumentPattern,
        emit_pattern_match_clause NodePatternMatchClause,
        emit_blockchain_fetch_arguments NodeBlockchainFetchArguments,
        emit_statement NodeStatement,
        emit_remote_fetch_statement NodeRemoteFetchStatement,
        emit_component_id NodeComponentId,
        emit_component_parameters NodeComponentParameters,
        emit_parameter_pair NodeParameterPair,
        emit_component_body NodeComponentBody,
        emit_statement_block NodeStatementBlock,
        emit_typed_identifier NodeTypedIdentifier,
        emit_type_annotation NodeTypeAnnotation,
        emit_program NodeProgram,
        emit_library_definition NodeLibraryDefinition,
        emit_library_single_definition NodeLibrarySingleDefinition,
        emit_contract_definition NodeContractDefinition,
        emit_contract_field NodeContractField,
        emit_with_constraint NodeWithConstraint,
        emit_component_definition NodeComponentDefinition,
        emit_procedure_definition NodeProcedureDefinition,
        emit_transition_definition NodeTransitionDefinition,
        emit_type_alternative_clause NodeTypeAlternativeClause,
        emit_type_map_value_arguments NodeTypeMapValueArguments,
        emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments,
    );
}

fn say(e: Option<&Ev>) -> String {
    match e {
        None => "nothing".into(),
        Some(Ev::Push(s)) => format!("push {}..{}", s.0.offset, s.1.offset),
        Some(Ev::Pop) => "pop".into(),
        Some(Ev::Enter(c, _)) => format!("enter {c}"),
        Some(Ev::Exit(c, _)) => format!("leave {c}"),
    }
}

fn diff(want: &[Ev], got: &[Ev]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let before: Vec<String> = want[i.saturating_sub(6)..i].iter().map(|e| say(Some(e))).collect();
    format!("event #{i} after [{}]: expected {}, got {}", before.join(", "), say(want.get(i)), say(got.get(i)))
}

/// A tree to walk.
fn gen_walk(s: &mut Src, fixed: usize, small: bool) -> (String, &'static str, Result<Option<Box<dyn Ast>>, String>) {
    let (text, cat) = if fixed != GENERATED {
        (corpus()[fixed].1.clone(), "Program")
    } else if s.chance(if small { 10 } else { 25 }) {
        let (m, _) = gen_contract(s, Shape { small: true, depth: 3 });
        (tok::plain(&m.toks()), "Program")
    } else {
        let (cat, toks, _) = gen_tree(s);
        (if s.chance(50) { tok::plain(&toks) } else { laid(s, &toks).text }, cat)
    };
    let t = parse_cat(cat, &text);
    (text, cat, t)
}

fn c12(s: &mut Src, fixed: usize) -> CaseResult {
    let (text, cat, t) = gen_walk(s, fixed, false);
    let Ok(Some(t)) = t else {
        return Ok(Info { classes: vec!["no tree (not judged)"], key: hash64(text.as_bytes()), ..Info::default() });
    };
    let real = t.real();
    let mut want = vec![];
    let _ = expected(&real, &Plan::default(), &mut 0, &mut want);
    let mut rec = Rec::new(Plan::default(), String::new());
    match guard(|| t.walk(&mut rec).map(|_| ())) {
        Err(p) => return fail(format!("{cat}: the walk panics: {p}"), text),
        Ok(Err(e)) => return fail(format!("{cat}: the walk fails though the visitor never does: {e:?}"), text),
        Ok(Ok(())) => {}
    }
    if want != rec.evs {
        return fail(format!("{cat}: {}", diff(&want, &rec.evs)), text);
    }
    Ok(Info {
        nontrivial: real.nodes() >= 4,
        classes: vec![cat, tree_classes(&real)],
        key: hash64(text.as_bytes()),
        sample: format!("{cat}: {text}"),
        evals: want.len() as u64,
    })
}

fn c13(s: &mut Src, fixed: usize) -> CaseResult {
    let (text, cat, t) = gen_walk(s, fixed, true);
    let Ok(Some(t)) = t else {
        return Ok(Info { classes: vec!["no tree (not judged)"], key: hash64(text.as_bytes()), ..Info::default() });
    };
    let real = t.real();
    let total = real.nodes() * 2;
    let msg = ["", BROKE, "no", "unexpected end", "é\n\"x\"", "Err", "SkipChildren"][s.usize(7)].to_string();
    let mut plans: Vec<Plan> = vec![];
    if total <= 60 {
        // every event
        plans.extend((0..total).map(|i| Plan { fail: Some(i), skip: None }));
    } else {
        for _ in 0..12 {
            plans.push(Plan { fail: Some(s.usize(total)), skip: None });
        }
    }
    for _ in 0..8 {
        let seed = s.draw(1 << 20);
        let p = [2, 10, 30, 60, 100][s.usize(5)];
        let fail = if s.chance(30) { Some(s.usize(total)) } else { None };
        plans.push(Plan { fail, skip: Some((seed, p)) });
    }
    let (mut errors, mut skips) = (0u64, 0u64);
    for plan in &plans {
        let mut want = vec![];
        let broke = expected(&real, plan, &mut 0, &mut want).is_err();
        let mut rec = Rec::new(plan.clone(), msg.clone());
        let r = match guard(|| t.walk(&mut rec).map(|_| ())) {
            Err(p) => return fail(format!("{cat}: the walk panics: {p}"), text),
            Ok(r) => r,
        };
        let plan_text = format!("visitor: fail at event {:?}, skips {:?}", plan.fail, plan.skip);
        match (&r, broke) {
            (Err(m), true) if *m == msg => {}
            (Ok(()), false) => {}
            (r, true) => return fail(format!("{cat}: {plan_text}: the visitor's error {msg:?} came back as {r:?}"), text),
            (r, false) => return fail(format!("{cat}: {plan_text}: the walk ended with {r:?}"), text),
        }
        if want != rec.evs {
            return fail(format!("{cat}: {plan_text}: {}", diff(&want, &rec.evs)), text);
        }
        errors += broke as u64;
        skips += plan.skip.is_some() as u64;
    }
    let mut classes = vec![cat, tree_classes(&real)];
    if total <= 60 {
        classes.push("every event fails once");
    } else {
        classes.push("some events fail");
    }
    let _ = (errors, skips);
    Ok(Info {
        nontrivial: real.nodes() >= 4,
        classes,
        key: hash64(text.as_bytes()),
        sample: format!("{cat}: {text}"),
        evals: plans.len() as u64,
    })
}

// ---------------------------------------------------------------------------------------- C18

/// Same kind, other text.
fn respell(s: &mut Src, toks: &mut [Tok]) -> bool {
    let c: Vec<usize> = (0..toks.len()).filter(|i| tok::is_class(toks[*i].kind)).collect();
    if c.is_empty() {
        return false;
    }
    if s.chance(10) {
        // two tokens of one class change places
        let (i, j) = (c[s.usize(c.len())], c[s.usize(c.len())]);
        if toks[i].kind == toks[j].kind && toks[i].text != toks[j].text {
            toks.swap(i, j);
            return true;
        }
    }
    let t = &mut toks[c[s.usize(c.len())]];
    let class = tok::kind_name(t.kind);
    match s.usize(6) {
        3..=4 => {
            // one character, anywhere: another letter case, another letter; nothing moves
            let b: Vec<char> = t.text.chars().collect();
            let i = s.usize(b.len());
            let flipped = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
            let new = if flipped != b[i] && s.chance(60) { flipped } else { *s.pick(&['a', 'b', 'A', 'F', '0', '1', '_', ' ']) };
            let text: String = b.iter().enumerate().map(|(k, c)| if k == i { new } else { *c }).collect();
            let r = tok::lex_to_toks(&text);
            if r.len() == 1 && r[0].kind == t.kind && r[0].text == text {
                t.text = text;
            } else {
                t.text = tok::gen_class(s, class);
            }
        }
        5 if class == "<NUM>" => {
            // zeros in front
            let at = t.text.starts_with('-') as usize;
            t.text.insert(at, '0');
        }
        5 if class == "<STR>" => {
            let at = if s.chance(50) { 1 } else { t.text.len() - 1 };
            if !t.text[..at].ends_with('\\') {
                t.text.insert(at, ' ');
            }
        }
        0 if ["<ID>", "<CID>", "<SPID>", "<TID>"].contains(&class) => {
            // the last letter only
            let last = t.text.pop().unwrap();
            t.text.push(if last == 'q' { 'r' } else { 'q' });
            if tok::lex_to_toks(&t.text).first().map(|x| x.kind) != Some(t.kind) {
                t.text = tok::gen_class(s, class);
            }
        }
        1 if class == "<STR>" => t.text.insert(1, 'q'),
        1 if class == "<HEX>" => t.text += "00",
        1 if class == "<NUM>" => t.text += "0",
        _ => t.text = tok::gen_class(s, class),
    }
    true
}

/// How two trees are ordered, which must agree with whether they are equal.
fn order(a: &dyn Ast, b: &dyn Ast, equal: bool) -> Result<std::cmp::Ordering, String> {
    let r = guard(|| (a.order(b), b.order(a)))?;
    let (Some(x), Some(y)) = r else { return Err("trees of different categories".into()) };
    let (x, y) = (x?, y?);
    match (x, y) {
        (Some(x), Some(y)) if x == y.reverse() && (x == std::cmp::Ordering::Equal) == equal => Ok(x),
        _ => Err(format!("the trees are {}, but are ordered {x:?} and, the other way round, {y:?}", if equal { "the same" } else { "different" })),
    }
}

fn c18(s: &mut Src, fixed: usize) -> CaseResult {
    let (cat, toks): (&'static str, Vec<Tok>) = if fixed != GENERATED {
        ("Program", tok::lex_to_toks(&corpus()[fixed].1))
    } else {
        let (c, t, _) = gen_tree(s);
        (c, t)
    };
    let style = tok::gen_style(s);
    let a = tok::layout(s, &toks, style).text;
    let mut toks2 = toks.clone();
    let how = match s.usize(5) {
        0 => "the same text",
        1 => "another layout",
        2 | 3 if respell(s, &mut toks2) => "one token respelt",
        _ => {
            damage(s, &mut toks2);
            "damaged"
        }
    };
    let b = match how {
        "the same text" => a.clone(),
        // same layout up to the changed token, mostly
        "one token respelt" | "damaged" if style == Style::Plain || s.chance(50) => tok::layout(s, &toks2, Style::Plain).text,
        _ => {
            let style = tok::gen_style(s);
            tok::layout(s, &toks2, style).text
        }
    };
    let a = if how == "one token respelt" && s.chance(50) { tok::layout(s, &toks, Style::Plain).text } else { a };
    let input = format!("{cat}: {a}\n=== and\n{b}");
    let ta = match parse_cat(cat, &a) {
        Ok(Some(t)) => t,
        Ok(None) => return fail("rejected", a),
        Err(p) => return fail(format!("panic: {p}"), a),
    };
    let mut classes = vec![cat, how];
    let ra = ta.real();
    let again = parse_cat(cat, &a).ok().flatten();
    if again.map(|t| ta.same(&*t)) != Some(Some(true)) {
        return fail("two parses of one text give different trees", a);
    }
    let copy = guard(|| {
        let c = ta.copy();
        (c.same(&*ta), c.real() == ra)
    });
    if copy != Ok((Some(true), true)) {
        return fail(format!("the copy of a tree is not the tree: {copy:?}"), a);
    }
    let mut differ = false;
    match parse_cat(cat, &b) {
        Ok(Some(tb)) => {
            let rb = tb.real();
            let want = ra == rb;
            differ = !want;
            classes.push(match (want, ra.bare() == rb.bare()) {
                (true, _) => "equal",
                (_, true) => "different positions only",
                _ => "different",
            });
            let got = guard(|| (ta.same(&*tb), tb.same(&*ta)));
            if got != Ok((Some(want), Some(want))) {
                return fail(format!("{how}: the trees are {}, but compare as {got:?}", if want { "the same" } else { "different" }), input);
            }
            // their order agrees with that
            let ab = match order(&*ta, &*tb, want) {
                Ok(o) => o,
                Err(e) => return fail(format!("{how}: {e}"), input),
            };
            // and is transitive
            let third = if s.chance(50) { &b } else { &a };
            let mut toks3 = tok::lex_to_toks(third);
            if !respell(s, &mut toks3) {
                damage(s, &mut toks3);
            }
            let c = if s.chance(50) { tok::plain(&toks3) } else { tok::layout(s, &toks3, style).text };
            if let Ok(Some(tc)) = parse_cat(cat, &c) {
                classes.push("three trees ordered");
                let rc = tc.real();
                let (bc, ac) = match (order(&*tb, &*tc, rb == rc), order(&*ta, &*tc, ra == rc)) {
                    (Ok(x), Ok(y)) => (x, y),
                    (Err(e), _) | (_, Err(e)) => return fail(format!("{how}: {e}"), format!("{input}\n=== and\n{c}")),
                };
                use std::cmp::Ordering::*;
                let expect = match (ab, bc) {
                    (Equal, x) | (x, Equal) => Some(x),
                    (Less, Less) => Some(Less),
                    (Greater, Greater) => Some(Greater),
                    _ => None,
                };
                if expect.is_some() && expect != Some(ac) {
                    return fail(format!("order: first to second {ab:?}, second to third {bc:?}, but first to third {ac:?}"), format!("{input}\n=== and\n{c}"));
                }
            }
        }
        Ok(None) => classes.push("second rejected"),
        Err(p) => return fail(format!("panic: {p}"), b),
    }
    Ok(Info { nontrivial: differ, classes, key: hash64(input.as_bytes()), sample: input, evals: 3 })
}

fn main() {
    let n = corpus().len();
    runner::main(&[
        Check {
            id: "C05",
            quick: 140_000,
            thorough: 8_400_000,
            rule: "at least two tokens and at least two different texts; every case compares 2..4 layouts of one token sequence",
            assumptions: &[
                "comments contain no further comment opener (nesting is not specified)",
                "neighbouring tokens that would merge are kept apart by something",
            ],
            fixed: n,
            f: c05,
            known: None,
            guided: 4,
        },
        Check {
            id: "C07",
            quick: 360_000,
            thorough: 21_600_000,
            rule: "the text has more than one line and was parsed; evaluations count positions compared",
            assumptions: &["lines end at a line feed; columns count bytes; both from 0", "positions of rejected texts are checked on tokens only"],
            fixed: n,
            f: c07,
            known: None,
            guided: 4,
        },
        Check {
            id: "C08",
            quick: 800_000,
            thorough: 48_000_000,
            rule: "the tree has at least four nodes",
            assumptions: &["the expected tree is the derivation the reference grammar's sampler made"],
            fixed: 0,
            f: c08,
            known: None,
            guided: 4,
        },
        Check {
            id: "C12",
            quick: 45_000,
            thorough: 2_700_000,
            rule: "the walked tree has at least four nodes; evaluations count events compared",
            assumptions: &["what is in the tree is taken from the tree itself; whether it is the right tree is C08"],
            fixed: n,
            f: c12,
            known: None,
            guided: 4,
        },
        Check {
            id: "C13",
            quick: 13_000,
            thorough: 780_000,
            rule: "the walked tree has at least four nodes; evaluations count walks with an injected error or skips",
            assumptions: &["leave events are answered with Continue or an error"],
            fixed: n,
            f: c13,
            known: None,
            guided: 4,
        },
        Check {
            id: "C18",
            quick: 450_000,
            thorough: 27_000_000,
            rule: "two texts of one category that both parse, to different trees; distinct by both texts",
            assumptions: &[],
            fixed: n,
            f: c18,
            known: None,
            guided: 4,
        },
    ])
}
