"""Constructor signatures and class hierarchy of the fluent.syntax AST (an external package)."""
_P = "fluent.syntax.ast."
_T = """
SyntaxNode BaseNode:
Resource SyntaxNode: body*
Entry SyntaxNode:
Message Entry: id value attributes* comment
Term Entry: id value attributes* comment
Pattern SyntaxNode: elements
PatternElement SyntaxNode:
TextElement PatternElement: value
Placeable PatternElement: expression
Expression SyntaxNode:
Literal Expression: value
StringLiteral Literal: value
NumberLiteral Literal: value
MessageReference Expression: id attribute
TermReference Expression: id attribute arguments
VariableReference Expression: id
FunctionReference Expression: id arguments
SelectExpression Expression: selector variants
CallArguments SyntaxNode: positional* named*
Attribute SyntaxNode: id value
Variant SyntaxNode: key value default
NamedArgument SyntaxNode: name value
Identifier SyntaxNode: name
BaseComment Entry: content
Comment BaseComment: content
GroupComment BaseComment: content
ResourceComment BaseComment: content
Junk SyntaxNode: content annotations*
Span BaseNode: start end
Annotation SyntaxNode: code arguments* message
"""
SIGS, PARENT = {}, {}
for _l in _T.split("\n"):
    if _l.strip():
        _h, _, _a = _l.partition(":")
        _n, _b = _h.split()
        SIGS[_P + _n] = _a.split()
        PARENT[_P + _n] = _P + _b


def canon(dotted):
    """fluent.syntax.FluentX.Y and fluent.syntax.ast.Y name the same classes."""
    if dotted.startswith("fluent.syntax."):
        c = _P + dotted.rsplit(".", 1)[1]
        if c in SIGS or c == _P + "BaseNode":
            return c
    return dotted


def mro(cls):
    out = [cls]
    while cls in PARENT:
        cls = PARENT[cls]
        out.append(cls)
    return out
