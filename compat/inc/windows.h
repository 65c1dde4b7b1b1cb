// Stand-in for the parts of the Windows API that CEX uses, for the native verification build.
// Behaviour lives in ../fakewin.cpp; ../fakewin.h holds the knobs a harness turns.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cwchar>
#include <string>
typedef uint32_t DWORD; typedef int BOOL; typedef uint8_t BYTE; typedef uint16_t WORD; typedef unsigned int UINT; typedef int LONG; typedef uint32_t ULONG;
typedef void* HANDLE; typedef void* LPVOID; typedef void* PVOID; typedef void* HMODULE; typedef void* HKEY; typedef size_t SIZE_T; typedef uintptr_t ULONG_PTR;
typedef wchar_t TCHAR; typedef wchar_t WCHAR; typedef wchar_t* LPTSTR; typedef const wchar_t* LPCTSTR; typedef const wchar_t* LPCWSTR; typedef char CHAR; typedef const char* LPCSTR;
typedef LONG LSTATUS; typedef uintptr_t HCRYPTPROV; typedef unsigned long long ULONGLONG; typedef long long LONGLONG; typedef DWORD* LPDWORD;
typedef unsigned int u_int; typedef unsigned short u_short; typedef unsigned long u_long; typedef unsigned char u_char; typedef int INT; typedef unsigned short USHORT; typedef unsigned char UCHAR; typedef SIZE_T* PSIZE_T;
#define TRUE 1
#define FALSE 0
#define TEXT(x) L##x
#define WINAPI
#define MAX_COMPUTERNAME_LENGTH 15
#define UNLEN 256
#define MAX_PATH 260
#define ERROR_SUCCESS 0
#define NO_ERROR 0
#define ERROR_BUFFER_OVERFLOW 111
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_CALL_NOT_IMPLEMENTED 120
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 0x01
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define PAGE_READWRITE 0x04
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_GUARD 0x100
#define HKEY_CLASSES_ROOT ((HKEY)0x80000000ull)
#define KEY_READ 0x20019
#define TOKEN_QUERY 8
#define GET_MODULE_HANDLE_EX_FLAG_FROM_ADDRESS 4
typedef union { struct { DWORD LowPart; LONG HighPart; }; long long QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; unsigned long long QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME, *LPFILETIME;
typedef struct { LONG x; LONG y; } POINT;
typedef struct { DWORD dwLength; DWORD dwMemoryLoad; uint64_t ullTotalPhys, ullAvailPhys, ullTotalPageFile, ullAvailPageFile, ullTotalVirtual, ullAvailVirtual, ullAvailExtendedVirtual; } MEMORYSTATUSEX;
typedef struct { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress; LPVOID lpMaximumApplicationAddress; uintptr_t dwActiveProcessorMask; DWORD dwNumberOfProcessors; DWORD dwProcessorType; DWORD dwAllocationGranularity; WORD wProcessorLevel; WORD wProcessorRevision; } SYSTEM_INFO;
typedef struct { PVOID BaseAddress; PVOID AllocationBase; DWORD AllocationProtect; SIZE_T RegionSize; DWORD State; DWORD Protect; DWORD Type; } MEMORY_BASIC_INFORMATION;
typedef struct { PVOID Sid; DWORD Attributes; } SID_AND_ATTRIBUTES;
typedef struct { SID_AND_ATTRIBUTES User; } TOKEN_USER, *PTOKEN_USER;
enum TOKEN_INFORMATION_CLASS { TokenUser = 1 };

BOOL GetComputerName(LPTSTR, LPDWORD); BOOL GetUserName(LPTSTR, LPDWORD); UINT GetDriveType(LPCTSTR); BOOL GetDiskFreeSpaceEx(LPCTSTR, ULARGE_INTEGER*, ULARGE_INTEGER*, ULARGE_INTEGER*);
DWORD GetLogicalDriveStrings(DWORD, LPTSTR); void Sleep(DWORD); BOOL GlobalMemoryStatusEx(MEMORYSTATUSEX*); DWORD GetCurrentProcessId(); DWORD GetCurrentThreadId(); HANDLE GetCurrentProcess(); HANDLE GetCurrentThread();
BOOL QueryPerformanceCounter(LARGE_INTEGER*); BOOL QueryPerformanceFrequency(LARGE_INTEGER*); void GetSystemTimeAsFileTime(FILETIME*); ULONGLONG GetTickCount64();
HANDLE GetProcessHeap(); LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T); BOOL HeapFree(HANDLE, DWORD, LPVOID); BOOL GetCursorPos(POINT*);
BOOL GetModuleHandleEx(DWORD, LPCTSTR, HMODULE*); SIZE_T VirtualQueryEx(HANDLE, const void*, MEMORY_BASIC_INFORMATION*, SIZE_T); BOOL VirtualProtectEx(HANDLE, LPVOID, SIZE_T, DWORD, ULONG*);
LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD); BOOL VirtualLock(LPVOID, SIZE_T); BOOL VirtualUnlock(LPVOID, SIZE_T); BOOL VirtualFree(LPVOID, SIZE_T, DWORD); PVOID RtlSecureZeroMemory(PVOID, SIZE_T);
BOOL GetProcessWorkingSetSize(HANDLE, PSIZE_T, PSIZE_T); LSTATUS RegOpenKeyEx(HKEY, LPCTSTR, DWORD, DWORD, HKEY*); LSTATUS RegEnumKeyEx(HKEY, DWORD, LPTSTR, LPDWORD, LPDWORD, LPTSTR, LPDWORD, FILETIME*); LSTATUS RegCloseKey(HKEY);
void GetSystemInfo(SYSTEM_INFO*); BOOL OpenProcessToken(HANDLE, DWORD, HANDLE*); BOOL GetTokenInformation(HANDLE, TOKEN_INFORMATION_CLASS, LPVOID, DWORD, LPDWORD); DWORD GetLastError(); BOOL CloseHandle(HANDLE);
BOOL IsValidSid(PVOID); BOOL ConvertSidToStringSid(PVOID, LPTSTR*); LPVOID LocalFree(LPVOID);
BOOL GetThreadTimes(HANDLE, FILETIME*, FILETIME*, FILETIME*, FILETIME*);

#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000
#define CRYPT_SILENT 0x40
BOOL CryptAcquireContextW(HCRYPTPROV*, LPCWSTR, LPCWSTR, DWORD, DWORD); BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE*); BOOL CryptReleaseContext(HCRYPTPROV, DWORD);

#define TH32CS_SNAPHEAPLIST 1
#define TH32CS_SNAPPROCESS 2
#define TH32CS_SNAPTHREAD 4
#define TH32CS_SNAPMODULE 8
typedef struct { SIZE_T dwSize; DWORD th32ProcessID; ULONG_PTR th32HeapID; DWORD dwFlags; } HEAPLIST32;
typedef struct { SIZE_T dwSize; HANDLE hHandle; ULONG_PTR dwAddress; SIZE_T dwBlockSize; DWORD dwFlags; DWORD dwLockCount; DWORD dwResvd; DWORD th32ProcessID; ULONG_PTR th32HeapID; } HEAPENTRY32;
typedef struct { DWORD dwSize; DWORD th32ModuleID; DWORD th32ProcessID; DWORD GlblcntUsage; DWORD ProccntUsage; BYTE* modBaseAddr; DWORD modBaseSize; HMODULE hModule; WCHAR szModule[256]; WCHAR szExePath[MAX_PATH]; } MODULEENTRY32, MODULEENTRY32W;
typedef struct { DWORD dwSize; DWORD cntUsage; DWORD th32ProcessID; ULONG_PTR th32DefaultHeapID; DWORD th32ModuleID; DWORD cntThreads; DWORD th32ParentProcessID; LONG pcPriClassBase; DWORD dwFlags; WCHAR szExeFile[MAX_PATH]; } PROCESSENTRY32, PROCESSENTRY32W;
typedef struct { DWORD dwSize; DWORD cntUsage; DWORD th32ThreadID; DWORD th32OwnerProcessID; LONG tpBasePri; LONG tpDeltaPri; DWORD dwFlags; } THREADENTRY32;
HANDLE CreateToolhelp32Snapshot(DWORD, DWORD); BOOL Heap32ListFirst(HANDLE, HEAPLIST32*); BOOL Heap32ListNext(HANDLE, HEAPLIST32*); BOOL Heap32First(HEAPENTRY32*, DWORD, ULONG_PTR); BOOL Heap32Next(HEAPENTRY32*);
BOOL Module32First(HANDLE, MODULEENTRY32*); BOOL Module32Next(HANDLE, MODULEENTRY32*); BOOL Process32First(HANDLE, PROCESSENTRY32*); BOOL Process32Next(HANDLE, PROCESSENTRY32*); BOOL Thread32First(HANDLE, THREADENTRY32*); BOOL Thread32Next(HANDLE, THREADENTRY32*);

typedef struct { char String[16]; } IP_ADDRESS_STRING;
typedef struct _IP_ADDR_STRING { struct _IP_ADDR_STRING* Next; IP_ADDRESS_STRING IpAddress; IP_ADDRESS_STRING IpMask; DWORD Context; } IP_ADDR_STRING;
typedef struct _IP_ADAPTER_INFO { struct _IP_ADAPTER_INFO* Next; DWORD ComboIndex; char AdapterName[260]; char Description[132]; UINT AddressLength; BYTE Address[8]; DWORD Index; UINT Type; UINT DhcpEnabled; IP_ADDR_STRING IpAddressList; IP_ADDR_STRING DhcpServer; uint64_t LeaseExpires; } IP_ADAPTER_INFO, *PIP_ADAPTER_INFO;
typedef struct { DWORD dwRtoAlgorithm, dwRtoMin, dwRtoMax, dwMaxConn, dwActiveOpens, dwPassiveOpens, dwAttemptFails, dwEstabResets, dwCurrEstab, dwInSegs, dwOutSegs, dwRetransSegs, dwInErrs, dwOutRsts, dwNumConns; } MIB_TCPSTATS;
ULONG GetAdaptersInfo(PIP_ADAPTER_INFO, ULONG*); ULONG GetTcpStatistics(MIB_TCPSTATS*);
bool IsWindowsServer(); bool IsWindowsVersionOrGreater(WORD, WORD, WORD);
