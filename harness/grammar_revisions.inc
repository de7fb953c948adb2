{"OpSDot",2},
{"OpUDot",2},
{"OpSUDot",2},
{"OpSDotAccSat",2},
{"OpUDotAccSat",2},
{"OpSUDotAccSat",2},
{"OpImageBlockMatchWindowSSDQCOM",0},
{"OpImageBlockMatchWindowSADQCOM",0},
{"OpImageBlockMatchGatherSSDQCOM",0},
{"OpImageBlockMatchGatherSADQCOM",0},
{"OpGroupNonUniformQuadAllKHR",0},
{"OpGroupNonUniformQuadAnyKHR",0},
{"OpFetchMicroTriangleVertexPositionNV",0},
{"OpFetchMicroTriangleVertexBarycentricNV",0},
{"OpAtomicFMinEXT",1},
{"OpAtomicFMaxEXT",1},
{"OpAtomicFAddEXT",1},
{"OpCompositeConstructContinuedINTEL",0},
{"OpMaskedGatherINTEL",0},
{"OpMaskedScatterINTEL",0},
{"FPFastMathMode.AllowTransform",0},
{"SourceLanguage.Slang",0},
{"SourceLanguage.Zig",0},
{"ExecutionMode.QuadDerivativesKHR",0},
{"ExecutionMode.RequireFullQuadsKHR",0},
{"ExecutionMode.MaximallyReconvergesKHR",0},
{"ExecutionMode.FPFastMathDefault",0},
{"ExecutionMode.MaximumRegistersINTEL",0},
{"ExecutionMode.MaximumRegistersIdINTEL",0},
{"ExecutionMode.NamedMaximumRegistersINTEL",0},
{"Decoration.BlockMatchSamplerQCOM",0},
{"Decoration.BankBitsINTEL",4},
{"Decoration.StridesizeINTEL",0},
{"Decoration.WordsizeINTEL",0},
{"Decoration.TrueDualPortINTEL",0},
{"Decoration.StallFreeINTEL",0},
{"Decoration.HostAccessINTEL",0},
{"Decoration.InitModeINTEL",0},
{"Decoration.ImplementInRegisterMapINTEL",0},
{"BuiltIn.HitMicroTriangleVertexPositionsNV",0},
{"BuiltIn.HitMicroTriangleVertexBarycentricsNV",0},
{"BuiltIn.HitKindFrontFacingMicroTriangleNV",0},
{"BuiltIn.HitKindBackFacingMicroTriangleNV",0},
{"Capability.TextureBlockMatch2QCOM",0},
{"Capability.QuadControlKHR",0},
{"Capability.DisplacementMicromapNV",0},
{"Capability.AtomicFloat16VectorNV",0},
{"Capability.RayTracingDisplacementMicromapNV",0},
{"Capability.FloatControls2",0},
{"Capability.FPGAClusterAttributesV2INTEL",0},
{"Capability.GlobalVariableHostAccessINTEL",0},
{"Capability.GlobalVariableFPGADecorationsINTEL",0},
{"Capability.MaskedGatherScatterINTEL",0},
{"Capability.RegisterLimitsINTEL",0},
{"Capability.LongCompositesINTEL",5},
