// the public view of the counters
contract nkxVmGetCurrentMemoryUsage { requires \valid(vm); assigns \nothing; nothrow; ensures [reported] \result == vm->currentMemoryUsage; }
contract nkxVmGetPeakMemoryUsage { requires \valid(vm); assigns \nothing; nothrow; ensures [reported] \result == vm->peakMemoryUsage; }
contract nkxSetMaxAllocatedMemory { requires \valid(vm); assigns vm->limits.maxAllocatedMemory; nothrow; ensures [set] vm->limits.maxAllocatedMemory == maxAllocatedMemory; }
contract nkxGetMaxAllocatedMemory { requires \valid(vm); assigns \nothing; nothrow; ensures [reported] \result == vm->limits.maxAllocatedMemory; }
