//! Minimal binding to the LLVM C API (the libLLVM shipped with the Rust toolchain).
use std::ffi::{c_char, c_double, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

pub type P = *mut c_void;

crate::dl_api!(Api {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(P, P, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMGetModuleDataLayout(P) -> P;
    fn LLVMABISizeOfType(P, P) -> c_ulonglong;
    fn LLVMStoreSizeOfType(P, P) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(P, P) -> c_uint;
    fn LLVMOffsetOfElement(P, P, c_uint) -> c_ulonglong;
    fn LLVMGetFirstFunction(P) -> P;
    fn LLVMGetNextFunction(P) -> P;
    fn LLVMGetFirstGlobal(P) -> P;
    fn LLVMGetNextGlobal(P) -> P;
    fn LLVMGetFirstGlobalAlias(P) -> P;
    fn LLVMGetNextGlobalAlias(P) -> P;
    fn LLVMAliasGetAliasee(P) -> P;
    fn LLVMGetValueName2(P, *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(P) -> c_int;
    fn LLVMGetInitializer(P) -> P;
    fn LLVMIsGlobalConstant(P) -> c_int;
    fn LLVMGlobalGetValueType(P) -> P;
    fn LLVMCountParams(P) -> c_uint;
    fn LLVMGetParam(P, c_uint) -> P;
    fn LLVMGetFirstBasicBlock(P) -> P;
    fn LLVMGetNextBasicBlock(P) -> P;
    fn LLVMGetFirstInstruction(P) -> P;
    fn LLVMGetNextInstruction(P) -> P;
    fn LLVMGetInstructionOpcode(P) -> c_int;
    fn LLVMGetNumOperands(P) -> c_int;
    fn LLVMGetOperand(P, c_uint) -> P;
    fn LLVMTypeOf(P) -> P;
    fn LLVMGetTypeKind(P) -> c_int;
    fn LLVMGetIntTypeWidth(P) -> c_uint;
    fn LLVMCountStructElementTypes(P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(P, c_uint) -> P;
    fn LLVMGetElementType(P) -> P;
    fn LLVMGetArrayLength2(P) -> u64;
    fn LLVMGetVectorSize(P) -> c_uint;
    fn LLVMGetReturnType(P) -> P;
    fn LLVMGetICmpPredicate(P) -> c_int;
    fn LLVMGetFCmpPredicate(P) -> c_int;
    fn LLVMGetNumSuccessors(P) -> c_uint;
    fn LLVMGetSuccessor(P, c_uint) -> P;
    fn LLVMGetSwitchCaseValue(P, c_uint) -> P;
    fn LLVMCountIncoming(P) -> c_uint;
    fn LLVMGetIncomingValue(P, c_uint) -> P;
    fn LLVMGetIncomingBlock(P, c_uint) -> P;
    fn LLVMGetNumIndices(P) -> c_uint;
    fn LLVMGetIndices(P) -> *const c_uint;
    fn LLVMGetNumMaskElements(P) -> c_uint;
    fn LLVMGetMaskValue(P, c_uint) -> c_int;
    fn LLVMGetAllocatedType(P) -> P;
    fn LLVMGetGEPSourceElementType(P) -> P;
    fn LLVMGetCalledValue(P) -> P;
    fn LLVMGetNumArgOperands(P) -> c_uint;
    fn LLVMGetNormalDest(P) -> P;
    fn LLVMGetAtomicRMWBinOp(P) -> c_int;
    fn LLVMGetConstOpcode(P) -> c_int;
    fn LLVMConstIntGetZExtValue(P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(P, *mut c_int) -> c_double;
    fn LLVMGetAggregateElement(P, c_uint) -> P;
    fn LLVMPrintValueToString(P) -> *mut c_char;
    fn LLVMDisposeMessage(*mut c_char);
    fn LLVMIsAConstantInt(P) -> P;
    fn LLVMIsAConstantFP(P) -> P;
    fn LLVMIsAConstantPointerNull(P) -> P;
    fn LLVMIsAUndefValue(P) -> P;
    fn LLVMIsAConstantAggregateZero(P) -> P;
    fn LLVMIsAConstantExpr(P) -> P;
    fn LLVMIsAConstantArray(P) -> P;
    fn LLVMIsAConstantDataSequential(P) -> P;
    fn LLVMIsAConstantStruct(P) -> P;
    fn LLVMIsAConstantVector(P) -> P;
    fn LLVMIsAFunction(P) -> P;
    fn LLVMIsAGlobalVariable(P) -> P;
    fn LLVMIsAGlobalAlias(P) -> P;
    fn LLVMIsAConstant(P) -> P;
    fn LLVMIsAInlineAsm(P) -> P;
    fn LLVMIsAArgument(P) -> P;
    fn LLVMIsAInstruction(P) -> P;
});

pub struct Llvm {
    pub a: Api,
    pub m: P,
    pub td: P,
}

// LLVMTypeKind
pub const TK_VOID: i32 = 0;
pub const TK_FLOAT: i32 = 2;
pub const TK_DOUBLE: i32 = 3;
pub const TK_LABEL: i32 = 7;
pub const TK_INT: i32 = 8;
pub const TK_STRUCT: i32 = 10;
pub const TK_ARRAY: i32 = 11;
pub const TK_PTR: i32 = 12;
pub const TK_VECTOR: i32 = 13;
pub const TK_METADATA: i32 = 14;

impl Llvm {
    pub fn open(lib: &str, file: &str) -> Llvm {
        let l = crate::dl::Lib::open(lib).expect("libLLVM");
        let a = Api::load(&l);
        unsafe {
            let ctx = (a.LLVMContextCreate)();
            let mut buf: P = std::ptr::null_mut();
            let mut msg: *mut c_char = std::ptr::null_mut();
            let c = CString::new(file).unwrap();
            if (a.LLVMCreateMemoryBufferWithContentsOfFile)(c.as_ptr(), &mut buf, &mut msg) != 0 {
                panic!("cannot read {}", file);
            }
            let mut m: P = std::ptr::null_mut();
            if (a.LLVMParseIRInContext)(ctx, buf, &mut m, &mut msg) != 0 {
                panic!("cannot parse {}: {}", file, CStr::from_ptr(msg).to_string_lossy());
            }
            let td = (a.LLVMGetModuleDataLayout)(m);
            Llvm { a, m, td }
        }
    }
    pub fn name(&self, v: P) -> String {
        let mut n = 0usize;
        unsafe {
            let p = (self.a.LLVMGetValueName2)(v, &mut n);
            String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
        }
    }
    pub fn print(&self, v: P) -> String {
        unsafe {
            let p = (self.a.LLVMPrintValueToString)(v);
            let s = CStr::from_ptr(p).to_string_lossy().into_owned();
            (self.a.LLVMDisposeMessage)(p);
            s
        }
    }
}
