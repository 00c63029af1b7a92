CONSTANT Tokens <- QuickTokens
CONSTANT FewTokens <- QuickFew
CONSTANT Forms <- QuickForms
CONSTANT Length = 2
CONSTANT FewLength = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PathIsBefore FragmentIsLast NoFragmentInQuery NoQueryWithoutMark OneValuePerName ViewsAgree
