# Included through CMAKE_PROJECT_TOP_LEVEL_INCLUDES: takes the sources that need GoTools,
# which is not available here, out of the project's own targets.

set(IFEM_SCOPE_DROP
  src/ASM/ASMmxBase.C
  src/ASM/ASMs1D.C
  src/ASM/ASMs1DC1.C
  src/ASM/ASMs1DLag.C
  src/ASM/ASMs1DSpec.C
  src/ASM/ASMs2D.C
  src/ASM/ASMs2DC1.C
  src/ASM/ASMs2DIB.C
  src/ASM/ASMs2DLag.C
  src/ASM/ASMs2Dmx.C
  src/ASM/ASMs2Drecovery.C
  src/ASM/ASMs2DSpec.C
  src/ASM/ASMs2DTri.C
  src/ASM/ASMs3D.C
  src/ASM/ASMs3DLag.C
  src/ASM/ASMs3Dmx.C
  src/ASM/ASMs3Drecovery.C
  src/ASM/ASMs3DSpec.C
  src/ASM/ASMstruct.C
  src/ASM/SplineField2D.C
  src/ASM/SplineField3D.C
  src/ASM/SplineField.C
  src/ASM/SplineFields1D.C
  src/ASM/SplineFields2D.C
  src/ASM/SplineFields2Dmx.C
  src/ASM/SplineFields3D.C
  src/ASM/SplineFields3Dmx.C
  src/ASM/SplineInterpolator.C
  src/Utility/SplineUtils.C
)
set(IFEM_APPUTILS_SCOPE_DROP
  MultiPatchModelGenerator.C
  SIMMultiPatchModelGen.C
)
# The first three include GoTools themselves. Every test case of the others needs a patch of a
# class that is left out.
set(IFEM_TEST_SCOPE_DROP
  src/ASM/Test/TestPiolaMapping.C
  src/Utility/Test/TestCoordinateMapping.C
  src/Utility/Test/TestSplineUtils.C
  src/ASM/Test/TestASMs1D.C
  src/ASM/Test/TestASMs2D.C
  src/ASM/Test/TestASMs2Dmx.C
  src/ASM/Test/TestASMs3D.C
  src/ASM/Test/TestASMs3Dmx.C
  src/ASM/Test/TestASMu1D.C
  src/ASM/Test/TestASMu2DLag.C
  src/ASM/Test/TestLagrangeField.C
  src/ASM/Test/TestLagrangeFields.C
  src/ASM/Test/TestMatlabPatch.C
  src/ASM/Test/TestSplineField.C
  src/ASM/Test/TestSplineFields.C
  src/LinAlg/Test/TestISTLMatrix.C
  src/LinAlg/Test/TestSAM.C
  src/SIM/Test/TestInitialConditions.C
  src/SIM/Test/TestSIM.C
  src/Utility/Test/TestFieldFunctions.C
)
set(IFEM_APPUTILS_TEST_SCOPE_DROP
  Test/TestMultiPatchModelGenerator.C
  Test/TestMeshUtils.C
  Test/TestSIMNodalConstraint.C
)

function(ifem_scope_drop target)
  get_target_property(sources ${target} SOURCES)
  list(REMOVE_ITEM sources ${ARGN})
  set_target_properties(${target} PROPERTIES SOURCES "${sources}")
endfunction()

function(ifem_scope)
  ifem_scope_drop(IFEM ${IFEM_SCOPE_DROP})
  ifem_scope_drop(IFEM-test ${IFEM_TEST_SCOPE_DROP})
  list(TRANSFORM IFEM_APPUTILS_SCOPE_DROP PREPEND "${CMAKE_SOURCE_DIR}/Apps/Utils/" OUTPUT_VARIABLE drop)
  ifem_scope_drop(IFEMAppUtils ${IFEM_APPUTILS_SCOPE_DROP} ${drop})
  ifem_scope_drop(IFEMAppUtils-test ${IFEM_APPUTILS_TEST_SCOPE_DROP})
endfunction()

cmake_language(DEFER CALL ifem_scope)
