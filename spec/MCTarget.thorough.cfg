CONSTANT Tokens <- QuickTokens
CONSTANT FewTokens <- QuickFew
CONSTANT Forms <- AllForms
CONSTANT Length = 3
CONSTANT FewLength = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PathIsBefore FragmentIsLast NoFragmentInQuery NoQueryWithoutMark OneValuePerName ViewsAgree
