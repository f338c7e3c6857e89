base=open('/verif/specs/machine.spec').read().split('// ---- generated')[0]
EX='NKVM.instructions NKVM.instructionAddressMask NKVM.staticSpace NKVM.staticAddressMask NKVM.functionCount NKVM.functionTable NKVM.externalFunctionCount NKVM.externalFunctionTable NKVM.currentExecutionContext NKVM.instructionsLeftBeforeTimeout NKGarbageCollectionInfo.gcCountdown NKGarbageCollectionInfo.gcInterval NKVMStack.values NKVMStack.size NKVMStack.capacity NKVMStack.indexMask NKVMExecutionContext.parent G.NKVMExecutionContext.kn NKVMExternalFunction.name NKVMExternalFunction.argumentCount NKVMExternalFunction.argTypes NKVMExternalFunction.argExternalTypes cell:i8 NKVM.catastrophicFailureJmpBuf'.split()
WR='writes *, '+', '.join('-'+x for x in EX)+';'
ERR='  ensures [err] \\old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;\n'
AL='forall ptr p; {\\alive(p)} \\old(\\alive(p)) ==> \\alive(p);'
ALE='forall ptr p; {\\alive(p)} \\old(\\alive(p)) && !\\rtype(p, struct NKVMObjectElement) ==> \\alive(p);'
o='// ---- generated: what the instructions rely on of the object table (functional contracts: P04 to P08)\n'
def ext(name, params, ret, req, ens, throws=True, alive=AL, pure=False):
    global o
    o+='extern contract %s(%s)%s {\n  requires %s;\n'%(name, params, ' : '+ret if ret else '', req)
    if pure: o+='  nothrow; assigns \\nothing; writes \\nothing;\n'
    else:
        o+='  noframe; %s\n  %s;\n  ensures [alive] %s\n'%(WR, 'throws' if throws else 'nothrow', alive)
        if 'struct NKVM *vm' in params: o+=ERR
        if throws: o+='  exsures [alive] %s\n  exsures [flag] vm->errorState.allocationFailure == 1;\n'%alive
    for e in ens: o+='  ensures %s;\n'%e
    o+='}\n'
V='\\valid(vm)'
o+='pred entp(struct NKValue *v) = v == NULL || \\valid(v) && \\rtype(v, struct NKVMObjectElement);\n'
ext('nkiVmObjectTableGetEntryById','struct NKVMTable *table, unsigned int index','struct NKVMObject *','\\valid(table)',['[object] \\result == NULL || \\valid(\\result) && \\rtype(\\result, struct NKVMObject)'],pure=True)
ext('nkiVmObjectFindOrAddEntry','struct NKVM *vm, struct NKVMObject *ob, struct NKValue *key, unsigned char noAdd','struct NKValue *',V+' && \\valid(ob) && \\valid(key)',['[entry] entp(\\result)'])
ext('nkiVmObjectFindOrAddEntry_public','struct NKVM *vm, struct NKValue *objectId, struct NKValue *key, unsigned char noAdd','struct NKValue *',V+' && \\valid(objectId) && \\valid(key)',['[entry] entp(\\result)'])
ext('nkiVmObjectClearEntry','struct NKVM *vm, struct NKVMObject *ob, struct NKValue *key','',V+' && \\valid(ob) && \\valid(key)',[],alive=ALE)
ext('nkiVmObjectTableCreateObject','struct NKVM *vm','unsigned int',V,[])
ext('nkiVmObjectGetSize','struct NKVM *vm, struct NKValue *objectId','unsigned int',V+' && \\valid(objectId)',[])
ext('nkiVmObjectGetExternalType','struct NKVM *vm, struct NKValue *object','NKVMExternalDataTypeID',V+' && \\valid(object)',[])
ext('nkiVmObjectSetExternalType','struct NKVM *vm, struct NKValue *object, NKVMExternalDataTypeID externalType','unsigned char',V+' && \\valid(object)',[])
ext('nkiVmObjectSetExternalData','struct NKVM *vm, struct NKValue *object, void *data','unsigned char',V+' && \\valid(object)',[])
ext('nkiVmObjectClearExternalDataAndType','struct NKVM *vm, struct NKValue *object','unsigned char',V+' && \\valid(object)',[])
ext('nkiVmObjectGetExternalData','struct NKVM *vm, struct NKValue *object','void *',V+' && \\valid(object)',['[data] \\result == NULL || \\as(struct NKVMExecutionContext *, \\result)->kn == vm'])
ext('nkxVmObjectGetExternalData','struct NKVM *vm, struct NKValue *object','void *',V+' && \\valid(object)',['[data] \\result == NULL || \\as(struct NKVMExecutionContext *, \\result)->kn == vm'])
ext('nkxValueSetString','struct NKVM *vm, struct NKValue *value, const char *str','',V+' && \\valid(value) && cstr(str)',[])
open('/verif/specs/machine.spec','w').write(base+o)
