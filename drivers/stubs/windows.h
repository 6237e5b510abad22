// Declarations (no definitions) of the Win32 functions used by the win_* headers, with the 64-bit Windows sizes of the types.
#pragma once
#include <cstddef>
#include <cstdint>
typedef int BOOL; typedef unsigned char BOOLEAN; typedef std::int32_t LONG; typedef LONG* LPLONG; typedef std::uint32_t DWORD;
typedef void* HANDLE; typedef void* PVOID; typedef const wchar_t* LPCWSTR; typedef struct _SECURITY_ATTRIBUTES* LPSECURITY_ATTRIBUTES;
typedef struct _RTL_CRITICAL_SECTION { void* DebugInfo; LONG LockCount; LONG RecursionCount; HANDLE OwningThread; HANDLE LockSemaphore; std::uintptr_t SpinCount; } CRITICAL_SECTION, *LPCRITICAL_SECTION;
typedef struct _RTL_SRWLOCK { PVOID Ptr; } SRWLOCK, *PSRWLOCK;
#define SRWLOCK_INIT {0}
#define FALSE 0
#define TRUE 1
#define INFINITE 0xFFFFFFFF
#define WAIT_OBJECT_0 ((DWORD)0)
#define WAIT_ABANDONED ((DWORD)0x80)
#define WAIT_TIMEOUT 258L
#define WAIT_FAILED ((DWORD)0xFFFFFFFF)
extern "C" {
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL bInitialOwner, LPCWSTR);
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG lInitialCount, LONG lMaximumCount, LPCWSTR);
BOOL ReleaseMutex(HANDLE);
BOOL ReleaseSemaphore(HANDLE, LONG lReleaseCount, LPLONG);
BOOL CloseHandle(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD dwMilliseconds);
void Sleep(DWORD dwMilliseconds);
DWORD GetLastError(void);
void InitializeCriticalSection(LPCRITICAL_SECTION); BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void DeleteCriticalSection(LPCRITICAL_SECTION); void EnterCriticalSection(LPCRITICAL_SECTION);
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION); void LeaveCriticalSection(LPCRITICAL_SECTION);
void InitializeSRWLock(PSRWLOCK); void AcquireSRWLockExclusive(PSRWLOCK); BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK); void ReleaseSRWLockExclusive(PSRWLOCK);
void AcquireSRWLockShared(PSRWLOCK); BOOLEAN TryAcquireSRWLockShared(PSRWLOCK); void ReleaseSRWLockShared(PSRWLOCK);
}
#define CreateMutex CreateMutexW
#define CreateSemaphore CreateSemaphoreW
