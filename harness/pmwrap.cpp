// Compiles the real pipeline manager against stand-ins for the unbuildable modules.
#include "pm_stubs.hh"
#include "PipelineManager.cpp"
