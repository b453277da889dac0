// the generator's own sources, plus accessors for the members the contracts talk about
#include "templates.cpp"
#include "generatorcommon.cpp"
#include "messagedefinitionprinter.cpp"
#include "messagedeclarationprinter.cpp"
extern "C" {
void *v_def_desc(MessageDefinitionPrinter *p) { return &p->mDescriptor; }
void *v_def_map(MessageDefinitionPrinter *p) { return &p->mTypeMap; }
void *v_def_prn(MessageDefinitionPrinter *p) { return &p->mPrinter; }
void *v_dec_desc(MessageDeclarationPrinter *p) { return &p->mDescriptor; }
void *v_dec_map(MessageDeclarationPrinter *p) { return &p->mTypeMap; }
void *v_dec_prn(MessageDeclarationPrinter *p) { return &p->mPrinter; }
void v_def_ordering(MessageDefinitionPrinter *p) { p->printFieldsOrdering(); }
void v_dec_properties(MessageDeclarationPrinter *p) { p->printProperties(); }
}
