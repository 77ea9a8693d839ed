//! Walking any tree, parsing any category: shared by the binaries that need no more of a tree than that.
use scilla_parser::ast::{converting::AstConverting, nodes::*, visitor::AstVisitor, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::{ParseError, SourcePosition, Token};
use scilla_parser::parser::parser as p;

/// Walks a tree and does nothing.
pub struct Nothing;
macro_rules! nothing {
    ($($f:ident $t:ident),* $(,)?) => {
        impl AstConverting for Nothing {
            fn push_source_position(&mut self, _: &SourcePosition, _: &SourcePosition) {}
            fn pop_source_position(&mut self) {}
            $(fn $f(&mut self, _: TreeTraversalMode, _: &$t) -> Result<TraversalResult, String> {
                Ok(TraversalResult::Continue)
            })*
        }
    };
}
nothing!(
    emit_byte_str NodeByteStr,
    emit_type_name_identifier NodeTypeNameIdentifier,
    emit_imported_name NodeImportedName,
    emit_import_declarations NodeImportDeclarations,
    emit_meta_identifier NodeMetaIdentifier,
    emit_variable_identifier NodeVariableIdentifier,
    emit_builtin_arguments NodeBuiltinArguments,
    emit_type_map_key NodeTypeMapKey,
    emit_type_map_value NodeTypeMapValue,
    emit_type_argument NodeTypeArgument,
    emit_scilla_type NodeScillaType,
    emit_type_map_entry NodeTypeMapEntry,
    emit_address_type_field NodeAddressTypeField,
    emit_address_type NodeAddressType,
    emit_full_expression NodeFullExpression,
    emit_message_entry NodeMessageEntry,
    emit_pattern_match_expression_clause NodePatternMatchExpressionClause,
    emit_atomic_expression NodeAtomicExpression,
    emit_contract_type_arguments NodeContractTypeArguments,
    emit_value_literal NodeValueLiteral,
    emit_map_access NodeMapAccess,
    emit_pattern NodePattern,
    emit_argument_pattern NodeArgumentPattern,
    emit_pattern_match_clause NodePatternMatchClause,
    emit_blockchain_fetch_arguments NodeBlockchainFetchArguments,
    emit_statement NodeStatement,
    emit_remote_fetch_statement NodeRemoteFetchStatement,
    emit_component_id NodeComponentId,
    emit_component_parameters NodeComponentParameters,
    emit_parameter_pair NodeParameterPair,
    emit_component_body NodeComponentBody,
    emit_statement_block NodeStatementBlock,
    emit_typed_identifier NodeTypedIdentifier,
    emit_type_annotation NodeTypeAnnotation,
    emit_program NodeProgram,
    emit_library_definition NodeLibraryDefinition,
    emit_library_single_definition NodeLibrarySingleDefinition,
    emit_contract_definition NodeContractDefinition,
    emit_contract_field NodeContractField,
    emit_with_constraint NodeWithConstraint,
    emit_component_definition NodeComponentDefinition,
    emit_procedure_definition NodeProcedureDefinition,
    emit_transition_definition NodeTransitionDefinition,
    emit_type_alternative_clause NodeTypeAlternativeClause,
    emit_type_map_value_arguments NodeTypeMapValueArguments,
    emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments,
);

pub type Toks<'a> = Vec<Result<(SourcePosition, Token<&'a str>, SourcePosition), ParseError>>;

/// Parses tokens.
pub fn parse_tree(cat: &str, toks: &Toks) -> Option<Box<dyn AstVisitor>> {
    macro_rules! dispatch {
        ($($name:literal $parser:ident),* $(,)?) => {
            match cat {
                $($name => p::$parser::new().parse(&mut vec![], toks.iter().cloned()).ok().map(|t| Box::new(t) as Box<dyn AstVisitor>),)*
                other => panic!("{other}"),
            }
        };
    }
    dispatch!(
        "Program" ProgramParser, "ByteString" ByteStringParser, "TypeNameIdentifier" TypeNameIdentifierParser,
        "ImportedName" ImportedNameParser, "ImportDeclarations" ImportDeclarationsParser,
        "MetaIdentifier" MetaIdentifierParser, "VariableIdentifier" VariableIdentifierParser,
        "BuiltinArguments" BuiltinArgumentsParser, "ScillaType" ScillaTypeParser, "TypeArgument" TypeArgumentParser,
        "AddressType" AddressTypeParser, "AddressTypeField" AddressTypeFieldParser, "TypeMapKey" TypeMapKeyParser,
        "TypeMapValue" TypeMapValueParser, "TypeMapValueArguments" TypeMapValueArgumentsParser,
        "TypeMapValueAllowingTypeArguments" TypeMapValueAllowingTypeArgumentsParser,
        "LibraryDefinition" LibraryDefinitionParser, "LibrarySingleDefinition" LibrarySingleDefinitionParser,
        "TypedIdentifier" TypedIdentifierParser, "TypeAnnotation" TypeAnnotationParser,
        "TypeAlternativeClause" TypeAlternativeClauseParser, "ContractTypeArguments" ContractTypeArgumentsParser,
        "FullExpression" FullExpressionParser, "PatternMatchExpressionClause" PatternMatchExpressionClauseParser,
        "Pattern" PatternParser, "ArgumentPattern" ArgumentPatternParser, "MessageEntry" MessageEntryParser,
        "AtomicExpression" AtomicExpressionParser, "ValueLiteral" ValueLiteralParser, "Statement" StatementParser,
        "StatementBlock" StatementBlockParser, "BlockchainFetchArguments" BlockchainFetchArgumentsParser,
        "ComponentId" ComponentIdParser, "PatternMatchClause" PatternMatchClauseParser,
        "RemoteFetchStatement" RemoteFetchStatementParser, "MapAccess" MapAccessParser,
        "ParameterPair" ParameterPairParser, "ComponentParameters" ComponentParametersParser,
        "ComponentDefinition" ComponentDefinitionParser, "TransitionDefinition" TransitionDefinitionParser,
        "ProcedureDefinition" ProcedureDefinitionParser, "ComponentBody" ComponentBodyParser,
        "ContractDefinition" ContractDefinitionParser, "ContractField" ContractFieldParser,
        "WithConstraint" WithConstraintParser,
    )
}

pub const CATS: &[&str] = &[
    "Program", "ByteString", "TypeNameIdentifier", "ImportedName", "ImportDeclarations", "MetaIdentifier", "VariableIdentifier",
    "BuiltinArguments", "ScillaType", "TypeArgument", "AddressType", "AddressTypeField", "TypeMapKey", "TypeMapValue",
    "TypeMapValueArguments", "TypeMapValueAllowingTypeArguments", "LibraryDefinition", "LibrarySingleDefinition", "TypedIdentifier",
    "TypeAnnotation", "TypeAlternativeClause", "ContractTypeArguments", "FullExpression", "PatternMatchExpressionClause", "Pattern",
    "ArgumentPattern", "MessageEntry", "AtomicExpression", "ValueLiteral", "Statement", "StatementBlock",
    "BlockchainFetchArguments", "ComponentId", "PatternMatchClause", "RemoteFetchStatement", "MapAccess", "ParameterPair",
    "ComponentParameters", "ComponentDefinition", "TransitionDefinition", "ProcedureDefinition", "ComponentBody",
    "ContractDefinition", "ContractField", "WithConstraint",
];
