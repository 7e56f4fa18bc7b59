// A stand-in for the parts of <windows.h> that concern files, so that the
// library's Windows code can be built and checked here. The functions are
// implemented by win_model.hpp, from Microsoft's documentation.
#ifndef VERIF_FAKEWIN_WINDOWS_H
#define VERIF_FAKEWIN_WINDOWS_H
#include <winapifamily.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>

#define WINAPI
#define _WIN32_WINNT_WINXP 0x0501
#define _WIN32_WINNT_VISTA 0x0600
#define _WIN32_WINNT_WIN7 0x0601
#define _WIN32_WINNT_WIN8 0x0602
#define _WIN32_WINNT_WINBLUE 0x0603

typedef int BOOL;
typedef uint8_t BYTE;
typedef uint16_t WORD;
typedef uint32_t DWORD;
typedef int32_t LONG;
typedef uint32_t ULONG;
typedef uint32_t UINT;
typedef int64_t LONGLONG;
typedef uint64_t ULONGLONG;
typedef uint64_t DWORDLONG;
typedef uintptr_t ULONG_PTR;
typedef size_t SIZE_T;
typedef void* PVOID;
typedef void* LPVOID;
typedef const void* LPCVOID;
typedef void* HANDLE;
typedef HANDLE* LPHANDLE;
typedef DWORD* LPDWORD;
typedef LONG* PLONG;
typedef const char* LPCSTR;
typedef char* LPSTR;
typedef wchar_t WCHAR; // 32 bits wide here, but holding UTF-16 code units
typedef const wchar_t* LPCWSTR;
typedef wchar_t* LPWSTR;
typedef BYTE BOOLEAN;

#define TRUE 1
#define FALSE 0
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define INVALID_FILE_SIZE ((DWORD)0xFFFFFFFF)
#define INVALID_SET_FILE_POINTER ((DWORD)-1)
#define MAX_PATH 260
#define MAXDWORD 0xffffffffu

typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER, *PLARGE_INTEGER;
typedef union _ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER, *PULARGE_INTEGER;
typedef struct _FILETIME { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME, *PFILETIME, *LPFILETIME;
typedef struct _OVERLAPPED {
  ULONG_PTR Internal; ULONG_PTR InternalHigh;
  union { struct { DWORD Offset; DWORD OffsetHigh; }; PVOID Pointer; };
  HANDLE hEvent;
} OVERLAPPED, *LPOVERLAPPED;
typedef struct _SECURITY_ATTRIBUTES { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;
typedef struct _CREATEFILE2_EXTENDED_PARAMETERS {
  DWORD dwSize; DWORD dwFileAttributes; DWORD dwFileFlags; DWORD dwSecurityQosFlags;
  LPSECURITY_ATTRIBUTES lpSecurityAttributes; HANDLE hTemplateFile;
} CREATEFILE2_EXTENDED_PARAMETERS, *LPCREATEFILE2_EXTENDED_PARAMETERS;

typedef enum _FILE_INFO_BY_HANDLE_CLASS {
  FileBasicInfo, FileStandardInfo, FileNameInfo, FileRenameInfo, FileDispositionInfo, FileAllocationInfo, FileEndOfFileInfo
} FILE_INFO_BY_HANDLE_CLASS;
typedef struct _FILE_BASIC_INFO { LARGE_INTEGER CreationTime, LastAccessTime, LastWriteTime, ChangeTime; DWORD FileAttributes; } FILE_BASIC_INFO;
typedef struct _FILE_STANDARD_INFO { LARGE_INTEGER AllocationSize, EndOfFile; DWORD NumberOfLinks; BOOLEAN DeletePending, Directory; } FILE_STANDARD_INFO;
typedef struct _FILE_ALLOCATION_INFO { LARGE_INTEGER AllocationSize; } FILE_ALLOCATION_INFO;
typedef struct _FILE_END_OF_FILE_INFO { LARGE_INTEGER EndOfFile; } FILE_END_OF_FILE_INFO;
typedef struct _BY_HANDLE_FILE_INFORMATION {
  DWORD dwFileAttributes; FILETIME ftCreationTime, ftLastAccessTime, ftLastWriteTime; DWORD dwVolumeSerialNumber, nFileSizeHigh, nFileSizeLow, nNumberOfLinks,
  nFileIndexHigh, nFileIndexLow;
} BY_HANDLE_FILE_INFORMATION, *LPBY_HANDLE_FILE_INFORMATION;

#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define GENERIC_EXECUTE 0x20000000u
#define GENERIC_ALL 0x10000000u
#define FILE_READ_DATA 0x0001u
#define FILE_WRITE_DATA 0x0002u
#define FILE_APPEND_DATA 0x0004u
#define FILE_READ_ATTRIBUTES 0x0080u
#define FILE_WRITE_ATTRIBUTES 0x0100u
#define SYNCHRONIZE 0x00100000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1
#define CREATE_ALWAYS 2
#define OPEN_EXISTING 3
#define OPEN_ALWAYS 4
#define TRUNCATE_EXISTING 5
#define FILE_ATTRIBUTE_READONLY 0x1u
#define FILE_ATTRIBUTE_HIDDEN 0x2u
#define FILE_ATTRIBUTE_SYSTEM 0x4u
#define FILE_ATTRIBUTE_DIRECTORY 0x10u
#define FILE_ATTRIBUTE_ARCHIVE 0x20u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_ATTRIBUTE_TEMPORARY 0x100u
#define FILE_ATTRIBUTE_SPARSE_FILE 0x200u
#define FILE_ATTRIBUTE_COMPRESSED 0x800u
#define FILE_ATTRIBUTE_OFFLINE 0x1000u
#define FILE_ATTRIBUTE_NOT_CONTENT_INDEXED 0x2000u
#define FILE_ATTRIBUTE_ENCRYPTED 0x4000u
#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
#define FILE_FLAG_WRITE_THROUGH 0x80000000u
#define FILE_FLAG_OVERLAPPED 0x40000000u
#define FILE_FLAG_NO_BUFFERING 0x20000000u
#define FILE_FLAG_RANDOM_ACCESS 0x10000000u
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000u
#define FILE_FLAG_DELETE_ON_CLOSE 0x04000000u
#define FILE_FLAG_BACKUP_SEMANTICS 0x02000000u
#define FILE_BEGIN 0
#define FILE_CURRENT 1
#define FILE_END 2
#define FILE_TYPE_UNKNOWN 0
#define FILE_TYPE_DISK 1
#define FILE_TYPE_CHAR 2
#define FILE_TYPE_PIPE 3
#define DUPLICATE_CLOSE_SOURCE 1
#define DUPLICATE_SAME_ACCESS 2
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define CP_ACP 0
#define CP_UTF8 65001
#define MB_PRECOMPOSED 1
#define MB_ERR_INVALID_CHARS 8

#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))

#define NO_ERROR 0
#define ERROR_SUCCESS 0
#define ERROR_INVALID_FUNCTION 1
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_PATH_NOT_FOUND 3
#define ERROR_TOO_MANY_OPEN_FILES 4
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_NOT_READY 21
#define ERROR_CRC 23
#define ERROR_SHARING_VIOLATION 32
#define ERROR_LOCK_VIOLATION 33
#define ERROR_HANDLE_EOF 38
#define ERROR_HANDLE_DISK_FULL 39
#define ERROR_NOT_SUPPORTED 50
#define ERROR_FILE_EXISTS 80
#define ERROR_INVALID_PARAMETER 87
#define ERROR_BROKEN_PIPE 109
#define ERROR_DISK_FULL 112
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_NEGATIVE_SEEK 131
#define ERROR_SEEK_ON_DEVICE 132
#define ERROR_ALREADY_EXISTS 183
#define ERROR_NO_DATA 232
#define ERROR_MORE_DATA 234
#define ERROR_OPERATION_ABORTED 995
#define ERROR_IO_INCOMPLETE 996
#define ERROR_IO_PENDING 997
#define ERROR_IO_DEVICE 1117
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_NO_SYSTEM_RESOURCES 1450

DWORD WINAPI GetLastError();
void WINAPI SetLastError(DWORD e);
HANDLE WINAPI CreateFileA(LPCSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disposition, DWORD flags_and_attrs, HANDLE templ);
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disposition, DWORD flags_and_attrs, HANDLE templ);
HANDLE WINAPI CreateFile2(LPCWSTR name, DWORD access, DWORD share, DWORD disposition, LPCREATEFILE2_EXTENDED_PARAMETERS params);
BOOL WINAPI CloseHandle(HANDLE h);
HANDLE WINAPI GetCurrentProcess();
BOOL WINAPI DuplicateHandle(HANDLE source_process, HANDLE source, HANDLE target_process, LPHANDLE target, DWORD access, BOOL inherit, DWORD options);
HANDLE WINAPI GetStdHandle(DWORD which);
DWORD WINAPI GetFileType(HANDLE h);
BOOL WINAPI GetFileSizeEx(HANDLE h, PLARGE_INTEGER size);
BOOL WINAPI SetFilePointerEx(HANDLE h, LARGE_INTEGER distance, PLARGE_INTEGER result, DWORD method);
BOOL WINAPI SetEndOfFile(HANDLE h);
BOOL WINAPI FlushFileBuffers(HANDLE h);
BOOL WINAPI GetFileInformationByHandle(HANDLE h, LPBY_HANDLE_FILE_INFORMATION info);
BOOL WINAPI GetFileInformationByHandleEx(HANDLE h, FILE_INFO_BY_HANDLE_CLASS what, LPVOID info, DWORD size);
BOOL WINAPI SetFileInformationByHandle(HANDLE h, FILE_INFO_BY_HANDLE_CLASS what, LPVOID info, DWORD size);
BOOL WINAPI GetFileTime(HANDLE h, LPFILETIME creation, LPFILETIME access, LPFILETIME write);
BOOL WINAPI SetFileTime(HANDLE h, const FILETIME* creation, const FILETIME* access, const FILETIME* write);
BOOL WINAPI ReadFile(HANDLE h, LPVOID data, DWORD size, LPDWORD transferred, LPOVERLAPPED o);
BOOL WINAPI WriteFile(HANDLE h, LPCVOID data, DWORD size, LPDWORD transferred, LPOVERLAPPED o);
int WINAPI MultiByteToWideChar(UINT page, DWORD flags, LPCSTR s, int n, LPWSTR out, int room);
DWORD WINAPI SetFilePointer(HANDLE h, LONG distance, LONG* distance_high, DWORD method);
DWORD WINAPI GetFileSize(HANDLE h, LPDWORD high);
BOOL WINAPI GetOverlappedResult(HANDLE h, LPOVERLAPPED o, LPDWORD transferred, BOOL wait);
int WINAPI lstrlenA(LPCSTR s);
int WINAPI lstrlenW(LPCWSTR s);
LONG WINAPI CompareFileTime(const FILETIME* a, const FILETIME* b);
void WINAPI GetSystemTimeAsFileTime(LPFILETIME t);
void WINAPI GetSystemTimePreciseAsFileTime(LPFILETIME t);
#endif
