#!/usr/bin/env python3
"""Writes patched copies of two Clang 20 headers so that iwyu.cc and
iwyu_ast_util.cc (written against Clang 21) compile and link with Clang 20.

Only inline accessors and two enumerators past the end of CastKind are added,
so no layout or ABI changes. usage: mkshim.py OUTDIR"""
import os
import sys

INC = '/usr/lib/llvm-20/include'


def patch(rel, edits, out):
    with open(os.path.join(INC, rel), encoding='utf-8') as f:
        text = f.read()
    for old, new in edits:
        assert text.count(old) == 1, (rel, old, text.count(old))
        text = text.replace(old, new)
    dst = os.path.join(out, rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    try:
        with open(dst, encoding='utf-8') as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = '%s.%d' % (dst, os.getpid())
    with open(tmp, 'w', encoding='utf-8') as f:
        f.write(text)
    os.rename(tmp, dst)


def main(out):
    patch('clang/AST/Type.h', [
        ('  const Type *getClass() const { return Class; }\n',
         '  const Type *getClass() const { return Class; }\n'
         '  struct ShimQualifier {\n'
         '    const Type *T;\n'
         '    const ShimQualifier *operator->() const { return this; }\n'
         '    const Type *getAsType() const { return T; }\n'
         '    CXXRecordDecl *getAsRecordDecl() const {\n'
         '      return T->getAsCXXRecordDecl();\n'
         '    }\n'
         '    explicit operator bool() const { return T != nullptr; }\n'
         '  };\n'
         '  ShimQualifier getQualifier() const { return {Class}; }\n'),
        ('  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  const IdentifierInfo *getIdentifier() const { return Name; }\n\n'
         '  ArrayRef<TemplateArgument> template_arguments() const {\n'
         '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
         '            DependentTemplateSpecializationTypeBits.NumArgs};\n',
         '  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  struct ShimName {\n'
         '    NestedNameSpecifier *NNS;\n'
         '    const IdentifierInfo *Name;\n'
         '    NestedNameSpecifier *getQualifier() const { return NNS; }\n'
         '  };\n'
         '  ShimName getDependentTemplateName() const { return {NNS, Name}; }\n'
         '  const IdentifierInfo *getIdentifier() const { return Name; }\n\n'
         '  ArrayRef<TemplateArgument> template_arguments() const {\n'
         '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
         '            DependentTemplateSpecializationTypeBits.NumArgs};\n'),
    ], out)
    patch('clang/AST/OperationKinds.def', [
        ('CAST_OPERATION(HLSLArrayRValue)\n',
         'CAST_OPERATION(HLSLArrayRValue)\n'
         'CAST_OPERATION(HLSLElementwiseCast)\n'
         'CAST_OPERATION(HLSLAggregateSplatCast)\n'),
    ], out)


if __name__ == '__main__':
    main(sys.argv[1])
