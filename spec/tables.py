"""Tables of the Process Monitor formats: an independent snapshot that the checks judge the code by."""

CLASS_NAME = {0: 'Unknown', 1: 'Process', 2: 'Registry', 3: 'File_System', 4: 'Profiling', 5: 'Network'}

OPERATIONS = {1: {0: 'Process_Defined',
     1: 'Process_Create',
     2: 'Process_Exit',
     3: 'Thread_Create',
     4: 'Thread_Exit',
     5: 'Load_Image',
     6: 'Thread_Profile',
     7: 'Process_Start',
     8: 'Process_Statistics',
     9: 'System_Statistics'},
 2: {0: 'RegOpenKey',
     1: 'RegCreateKey',
     2: 'RegCloseKey',
     3: 'RegQueryKey',
     4: 'RegSetValue',
     5: 'RegQueryValue',
     6: 'RegEnumValue',
     7: 'RegEnumKey',
     8: 'RegSetInfoKey',
     9: 'RegDeleteKey',
     10: 'RegDeleteValue',
     11: 'RegFlushKey',
     12: 'RegLoadKey',
     13: 'RegUnloadKey',
     14: 'RegRenameKey',
     15: 'RegQueryMultipleValueKey',
     16: 'RegSetKeySecurity',
     17: 'RegQueryKeySecurity'},
 3: {0: 'VolumeDismount',
     1: 'VolumeMount',
     2: 'FASTIO_MDL_WRITE_COMPLETE',
     3: 'WriteFile2',
     4: 'FASTIO_MDL_READ_COMPLETE',
     5: 'ReadFile2',
     6: 'QueryOpen',
     7: 'FASTIO_CHECK_IF_POSSIBLE',
     8: 'IRP_MJ_12',
     9: 'IRP_MJ_11',
     10: 'IRP_MJ_10',
     11: 'IRP_MJ_9',
     12: 'IRP_MJ_8',
     13: 'FASTIO_NOTIFY_STREAM_FO_CREATION',
     14: 'FASTIO_RELEASE_FOR_CC_FLUSH',
     15: 'FASTIO_ACQUIRE_FOR_CC_FLUSH',
     16: 'FASTIO_RELEASE_FOR_MOD_WRITE',
     17: 'FASTIO_ACQUIRE_FOR_MOD_WRITE',
     18: 'FASTIO_RELEASE_FOR_SECTION_SYNCHRONIZATION',
     19: 'CreateFileMapping',
     20: 'CreateFile',
     21: 'CreatePipe',
     22: 'IRP_MJ_CLOSE',
     23: 'ReadFile',
     24: 'WriteFile',
     25: 'QueryInformationFile',
     26: 'SetInformationFile',
     27: 'QueryEAFile',
     28: 'SetEAFile',
     29: 'FlushBuffersFile',
     30: 'QueryVolumeInformation',
     31: 'SetVolumeInformation',
     32: 'DirectoryControl',
     33: 'FileSystemControl',
     34: 'DeviceIoControl',
     35: 'InternalDeviceIoControl',
     36: 'Shutdown',
     37: 'LockUnlockFile',
     38: 'CloseFile',
     39: 'CreateMailSlot',
     40: 'QuerySecurityFile',
     41: 'SetSecurityFile',
     42: 'Power',
     43: 'SystemControl',
     44: 'DeviceChange',
     45: 'QueryFileQuota',
     46: 'SetFileQuota',
     47: 'PlugAndPlay'},
 4: {0: 'Thread_Profiling', 1: 'Process_Profiling', 2: 'Debug_Output_Profiling'},
 5: {0: 'Unknown',
     1: 'Other',
     2: 'Send',
     3: 'Receive',
     4: 'Accept',
     5: 'Connect',
     6: 'Disconnect',
     7: 'Reconnect',
     8: 'Retransmit',
     9: 'TCPCopy'}}

SUBOPERATIONS = {30: {1: 'QueryInformationVolume',
      2: 'QueryLabelInformationVolume',
      3: 'QuerySizeInformationVolume',
      4: 'QueryDeviceInformationVolume',
      5: 'QueryAttributeInformationVolume',
      6: 'QueryControlInformationVolume',
      7: 'QueryFullSizeInformationVolume',
      8: 'QueryObjectIdInformationVolume'},
 31: {1: 'SetControlInformationVolume', 2: 'SetLabelInformationVolume', 8: 'SetObjectIdInformationVolume'},
 25: {4: 'QueryBasicInformationFile',
      5: 'QueryStandardInformationFile',
      6: 'QueryFileInternalInformationFile',
      7: 'QueryEaInformationFile',
      9: 'QueryNameInformationFile',
      14: 'QueryPositionInformationFile',
      18: 'QueryAllInformationFile',
      20: 'QueryEndOfFile',
      22: 'QueryStreamInformationFile',
      28: 'QueryCompressionInformationFile',
      29: 'QueryId',
      31: 'QueryMoveClusterInformationFile',
      34: 'QueryNetworkOpenInformationFile',
      35: 'QueryAttributeTagFile',
      37: 'QueryIdBothDirectory',
      39: 'QueryValidDataLength',
      40: 'QueryShortNameInformationFile',
      43: 'QueryIoPiorityHint',
      46: 'QueryLinks',
      48: 'QueryNormalizedNameInformationFile',
      49: 'QueryNetworkPhysicalNameInformationFile',
      50: 'QueryIdGlobalTxDirectoryInformation',
      51: 'QueryIsRemoteDeviceInformation',
      52: 'QueryAttributeCacheInformation',
      53: 'QueryNumaNodeInformation',
      54: 'QueryStandardLinkInformation',
      55: 'QueryRemoteProtocolInformation',
      56: 'QueryRenameInformationBypassAccessCheck',
      57: 'QueryLinkInformationBypassAccessCheck',
      58: 'QueryVolumeNameInformation',
      59: 'QueryIdInformation',
      60: 'QueryIdExtdDirectoryInformation',
      62: 'QueryHardLinkFullIdInformation',
      63: 'QueryIdExtdBothDirectoryInformation',
      67: 'QueryDesiredStorageClassInformation',
      68: 'QueryStatInformation',
      69: 'QueryMemoryPartitionInformation',
      70: 'QuerySatLxInformation',
      71: 'QueryCaseSensitiveInformation',
      72: 'QueryLinkInformationEx',
      73: 'QueryLinkInfomraitonBypassAccessCheck',
      74: 'QueryStorageReservedIdInformation',
      75: 'QueryCaseSensitiveInformationForceAccessCheck'},
 26: {4: 'SetBasicInformationFile',
      10: 'SetRenameInformationFile',
      11: 'SetLinkInformationFile',
      13: 'SetDispositionInformationFile',
      14: 'SetPositionInformationFile',
      19: 'SetAllocationInformationFile',
      20: 'SetEndOfFileInformationFile',
      22: 'SetFileStreamInformation',
      23: 'SetPipeInformation',
      39: 'SetValidDataLengthInformationFile',
      40: 'SetShortNameInformation',
      61: 'SetReplaceCompletionInformation',
      64: 'SetDispositionInformationEx',
      65: 'SetRenameInformationEx',
      66: 'SetRenameInformationExBypassAccessCheck',
      74: 'SetStorageReservedIdInformation'},
 32: {1: 'QueryDirectory', 2: 'NotifyChangeDirectory'},
 47: {0: 'StartDevice',
      1: 'QueryRemoveDevice',
      2: 'RemoveDevice',
      3: 'CancelRemoveDevice',
      4: 'StopDevice',
      5: 'QueryStopDevice',
      6: 'CancelStopDevice',
      7: 'QueryDeviceRelations',
      8: 'QueryInterface',
      9: 'QueryCapabilities',
      10: 'QueryResources',
      11: 'QueryResourceRequirements',
      12: 'QueryDeviceText',
      13: 'FilterResourceRequirements',
      15: 'ReadConfig',
      16: 'WriteConfig',
      17: 'Eject',
      18: 'SetLock',
      19: 'QueryId2',
      20: 'QueryPnpDeviceState',
      21: 'QueryBusInformation',
      22: 'DeviceUsageNotification',
      23: 'SurpriseRemoval',
      24: 'QueryLegacyBusInformation'},
 37: {1: 'LockFile', 2: 'UnlockFileSingle', 3: 'UnlockFileAll', 4: 'UnlockFileByKey'}}

COLUMN = {'NONE': 0,
 'DATE_AND_TIME': 40052,
 'PROCESS_NAME': 40053,
 'PID': 40054,
 'OPERATION': 40055,
 'RESULT': 40056,
 'DETAIL': 40057,
 'SEQUENCE': 40058,
 'COMPANY': 40064,
 'DESCRIPTION': 40065,
 'COMMAND_LINE': 40066,
 'USER': 40067,
 'IMAGE_PATH': 40068,
 'SESSION': 40069,
 'PATH': 40071,
 'TID': 40072,
 'RELATIVE_TIME': 40076,
 'DURATION': 40077,
 'TIME_OF_DAY': 40078,
 'VERSION': 40081,
 'EVENT_CLASS': 40082,
 'AUTHENTICATION_ID': 40083,
 'VIRTUALIZED': 40084,
 'INTEGRITY': 40085,
 'CATEGORY': 40086,
 'PARENT_PID': 40087,
 'ARCHITECTURE': 40088,
 'COMPLETION_TIME': 40164}

RELATION = {'IS': 0,
 'IS_NOT': 1,
 'LESS_THAN': 2,
 'MORE_THAN': 3,
 'BEGINS_WITH': 4,
 'ENDS_WITH': 5,
 'CONTAINS': 6,
 'EXCLUDES': 7}

ACTION = {'EXCLUDE': 0, 'INCLUDE': 1}

COLUMN_TITLE = {'DATE_AND_TIME': 'Date & Time',
 'PROCESS_NAME': 'Process Name',
 'PID': 'PID',
 'OPERATION': 'Operation',
 'RESULT': 'Result',
 'DETAIL': 'Detail',
 'SEQUENCE': 'Sequence',
 'COMPANY': 'Company',
 'DESCRIPTION': 'Description',
 'COMMAND_LINE': 'Command Line',
 'USER': 'User',
 'IMAGE_PATH': 'Image Path',
 'SESSION': 'Session',
 'PATH': 'Path',
 'TID': 'TID',
 'RELATIVE_TIME': 'Relative Time',
 'DURATION': 'Duration',
 'TIME_OF_DAY': 'Time of Day',
 'VERSION': 'Version',
 'EVENT_CLASS': 'Event Class',
 'AUTHENTICATION_ID': 'Authentication ID',
 'VIRTUALIZED': 'Virtualized',
 'INTEGRITY': 'Integrity',
 'CATEGORY': 'Category',
 'PARENT_PID': 'Parent PID',
 'ARCHITECTURE': 'Architecture',
 'COMPLETION_TIME': 'Completion Time'}

REG_TYPE = {0: 'REG_NONE',
 1: 'REG_SZ',
 2: 'REG_EXPAND_SZ',
 3: 'REG_BINARY',
 4: 'REG_DWORD',
 5: 'REG_DWORD_BIG_ENDIAN',
 6: 'REG_LINK',
 7: 'REG_MULTI_SZ',
 8: 'REG_RESOURCE_LIST',
 9: 'REG_FULL_RESOURCE_DESCRIPTOR',
 10: 'REG_RESOURCE_REQUIREMENTS_LIST',
 11: 'REG_QWORD'}

REG_VALUE_CLASS = {0: 'KeyValueBasicInformation',
 1: 'KeyValueFullInformation',
 2: 'KeyValuePartialInformation',
 3: 'KeyValueFullInformationAlign64',
 4: 'KeyValuePartialInformationAlign64',
 5: 'KeyValueLayerInformation'}

REG_KEY_CLASS = {0: 'Basic',
 1: 'Node',
 2: 'Full',
 3: 'Name',
 4: 'Cached',
 5: 'Flags',
 6: 'Virtualization',
 7: 'HandleTags',
 8: 'Trust',
 9: 'Layer'}

REG_SET_CLASS = {0: 'KeyWriteTimeInformation', 1: 'KeyWow64FlagsInformation', 5: 'KeySetHandleTagsInformation'}

REG_DISPOSITION = {1: 'REG_CREATED_NEW_KEY', 2: 'REG_OPENED_EXISTING_KEY'}

FS_DISPOSITION = {0: 'Supersede', 1: 'Open', 2: 'Create', 3: 'OpenIf', 4: 'Overwrite', 5: 'OverwriteIf'}

OPEN_RESULT = {0: 'Superseded', 1: 'Opened', 2: 'Created', 3: 'Overwritten', 4: 'Exists', 5: 'DoesNotExist'}

FILE_CLASS = {0: 'Unknown',
 1: 'FileDirectoryInformation',
 2: 'FileFullDirectoryInformation',
 3: 'FileBothDirectoryInformation',
 4: 'FileBasicInformation',
 5: 'FileStandardInformation',
 6: 'FileInternalInformation',
 7: 'FileEaInformation',
 8: 'FileAccessInformation',
 9: 'FileNameInformation',
 10: 'FileRenameInformation',
 11: 'FileLinkInformation',
 12: 'FileNamesInformation',
 13: 'FileDispositionInformation',
 14: 'FilePositionInformation',
 15: 'FileFullEaInformation',
 16: 'FileModeInformation',
 17: 'FileAlignmentInformation',
 18: 'FileAllInformation',
 19: 'FileAllocationInformation',
 20: 'FileEndOfFileInformation',
 21: 'FileAlternateNameInformation',
 22: 'FileStreamInformation',
 23: 'FilePipeInformation',
 24: 'FilePipeLocalInformation',
 25: 'FilePipeRemoteInformation',
 26: 'FileMailslotQueryInformation',
 27: 'FileMailslotSetInformation',
 28: 'FileCompressionInformation',
 29: 'FileObjectIdInformation',
 30: 'FileCompletionInformation',
 31: 'FileMoveClusterInformation',
 32: 'FileQuotaInformation',
 33: 'FileReparsePointInformation',
 34: 'FileNetworkOpenInformation',
 35: 'FileAttributeTagInformation',
 36: 'FileTrackingInformation',
 37: 'FileIdBothDirectoryInformation',
 38: 'FileIdFullDirectoryInformation',
 39: 'FileValidDataLengthInformation',
 40: 'FileShortNameInformation',
 41: 'FileIoCompletionNotificationInformation',
 42: 'FileIoStatusBlockRangeInformation',
 43: 'FileIoPriorityHintInformation',
 44: 'FileSfioReserveInformation',
 45: 'FileSfioVolumeInformation',
 46: 'FileHardLinkInformation',
 47: 'FileProcessIdsUsingFileInformation',
 48: 'FileNormalizedNameInformation',
 49: 'FileNetworkPhysicalNameInformation',
 50: 'FileIdGlobalTxDirectoryInformation',
 51: 'FileIsRemoteDeviceInformation',
 52: 'FileUnusedInformation',
 53: 'FileNumaNodeInformation',
 54: 'FileStandardLinkInformation',
 55: 'FileRemoteProtocolInformation',
 56: 'FileRenameInformationBypassAccessCheck',
 57: 'FileLinkInformationBypassAccessCheck',
 58: 'FileVolumeNameInformation',
 59: 'FileIdInformation',
 60: 'FileIdExtdDirectoryInformation',
 61: 'FileReplaceCompletionInformation',
 62: 'FileHardLinkFullIdInformation',
 63: 'FileIdExtdBothDirectoryInformation',
 64: 'FileDispositionInformationEx',
 65: 'FileRenameInformationEx',
 66: 'FileRenameInformationExBypassAccessCheck',
 67: 'FileDesiredStorageClassInformation',
 68: 'FileStatInformation',
 69: 'FileMemoryPartitionInformation',
 70: 'FileMaximumInformation',
 71: 'SeShutdownPrivilege',
 72: 'SeChangeNotifyPrivilege',
 73: 'SeUndockPrivilege',
 74: 'SeIncreaseWorkingSetPrivilege',
 75: 'SeTimeZonePrivilege'}

PAGE_PROTECTION = {2: 'PAGE_READONLY',
 4: 'PAGE_READWRITE',
 8: 'PAGE_WRITECOPY',
 16: 'PAGE_EXECUTE',
 32: 'PAGE_EXECUTE_READ',
 64: 'PAGE_EXECUTE_READWRITE',
 512: 'PAGE_NOCACHE'}

PRIORITY = {0: '', 1: 'Very Low', 2: 'Low', 3: 'Normal', 4: 'High', 5: 'Critical'}

SYNC_TYPE = {0: 'SyncTypeOther', 1: 'SyncTypeCreateSection'}

REG_ACCESS = [(983103, 'All Access'),
 (131103, 'Read/Write'),
 (131097, 'Read'),
 (131078, 'Write'),
 (1, 'Query Value'),
 (2, 'Set Value'),
 (4, 'Create Sub Key'),
 (8, 'Enumerate Sub Keys'),
 (16, 'Notify'),
 (32, 'Create Link'),
 (768, 'WOW64_Res'),
 (512, 'WOW64_32Key'),
 (256, 'WOW64_64Key'),
 (65536, 'Delete'),
 (131072, 'Read Control'),
 (262144, 'Write DAC'),
 (524288, 'Write Owner'),
 (1048576, 'Synchronize'),
 (16777216, 'Access System Security'),
 (33554432, 'Maximum Allowed')]

FS_ACCESS = [(2032127, 'All Access'),
 (1180095, 'Generic Read/Write/Execute'),
 (1180063, 'Generic Read/Write'),
 (1179817, 'Generic Read/Execute'),
 (1180086, 'Generic Write/Execute'),
 (1179785, 'Generic Read'),
 (1179926, 'Generic Write'),
 (1179808, 'Generic Execute'),
 (1, 'Read Data/List Directory'),
 (2, 'Write Data/Add File'),
 (4, 'Append Data/Add Subdirectory/Create Pipe Instance'),
 (8, 'Read EA'),
 (16, 'Write EA'),
 (32, 'Execute/Traverse'),
 (64, 'Delete Child'),
 (128, 'Read Attributes'),
 (256, 'Write Attributes'),
 (65536, 'Delete'),
 (131072, 'Read Control'),
 (262144, 'Write DAC'),
 (524288, 'Write Owner'),
 (1048576, 'Synchronize'),
 (16777216, 'Access System Security'),
 (33554432, 'Maximum Allowed')]

CREATE_OPTIONS = [(1, 'Directory'),
 (2, 'Write Through'),
 (4, 'Sequential Access'),
 (8, 'No Buffering'),
 (16, 'Synchronous IO Alert'),
 (32, 'Synchronous IO Non-Alert'),
 (64, 'Non-Directory File'),
 (128, 'Create Tree Connection'),
 (256, 'Complete If Oplocked'),
 (512, 'No EA Knowledge'),
 (1024, 'Open for Recovery'),
 (2048, 'Random Access'),
 (4096, 'Delete On Close'),
 (8192, 'Open By ID'),
 (16384, 'Open For Backup'),
 (32768, 'No Compression'),
 (1048576, 'Reserve OpFilter'),
 (2097152, 'Open Reparse Point'),
 (4194304, 'Open No Recall'),
 (8388608, 'Open For Free Space Query'),
 (65536, 'Open Requiring Oplock'),
 (131072, 'Disallow Exclusive')]

ATTRIBUTES = [(1, 'R'),
 (2, 'H'),
 (4, 'S'),
 (16, 'D'),
 (32, 'A'),
 (64, 'D'),
 (128, 'N'),
 (256, 'T'),
 (512, 'SF'),
 (1024, 'RP'),
 (2048, 'C'),
 (4096, 'O'),
 (8192, 'NCI'),
 (16384, 'E'),
 (65536, 'V')]

SHARE = [(1, 'Read'), (2, 'Write'), (4, 'Delete')]

IO_FLAGS = [(16, 'Buffered'),
 (1, 'Non-cached'),
 (2, 'Paging I/O'),
 (4, 'Synchronous'),
 (64, 'Synchronous Paging I/O'),
 (4194304, 'Write Through')]

NOTIFY = [(1, 'FILE_NOTIFY_CHANGE_FILE_NAME'),
 (2, 'FILE_NOTIFY_CHANGE_DIR_NAME'),
 (3, 'FILE_NOTIFY_CHANGE_NAME'),
 (4, 'FILE_NOTIFY_CHANGE_ATTRIBUTES'),
 (8, 'FILE_NOTIFY_CHANGE_SIZE'),
 (16, 'FILE_NOTIFY_CHANGE_LAST_WRITE'),
 (32, 'FILE_NOTIFY_CHANGE_LAST_ACCESS'),
 (64, 'FILE_NOTIFY_CHANGE_CREATION'),
 (128, 'FILE_NOTIFY_CHANGE_EA'),
 (256, 'FILE_NOTIFY_CHANGE_SECURITY'),
 (512, 'FILE_NOTIFY_CHANGE_STREAM_NAME'),
 (1024, 'FILE_NOTIFY_CHANGE_STREAM_SIZE'),
 (2048, 'FILE_NOTIFY_CHANGE_STREAM_WRITE')]

REG_GENERIC = [131097, 131078, 131097, 983103]

FS_GENERIC = [1179785, 1179926, 1179808, 2032127]

ERRORS = {0: 'SUCCESS',
 259: '',
 260: 'REPARSE',
 261: 'MORE ENTRIES',
 264: 'OPLOCK BREAK IN PROGRESS',
 267: 'NOTIFY CLEANUP',
 268: 'NOTIFY ENUM DIR',
 298: 'FILE LOCKED WITH ONLY READERS',
 299: 'FILE LOCKED WITH WRITERS',
 533: 'OPLOCK SWITCHED TO NEW HANDLE',
 534: 'OPLOCK HANDLE CLOSED',
 871: 'WAIT FOR OPLOCK',
 1073741846: 'PREDEFINED HANDLE',
 3221225473: 'UNSUCCESSFUL',
 2147483669: 'INVALID EA FLAG',
 2147483650: 'DATATYPE MISALIGNMENT',
 2147483653: 'BUFFER OVERFLOW',
 2147483654: 'NO MORE FILES',
 2147483674: 'NO MORE ENTRIES',
 3221225729: 'NOT EMPTY',
 3221225474: 'NOT IMPLEMENTED',
 3221225475: 'INVALID INFO CLASS',
 3221225476: 'INFO LENGTH MISMATCH',
 3221225477: 'ACCESS VIOLATION',
 3221225478: 'IN PAGE ERROR',
 3221225480: 'INVALID HANDLE',
 3221225485: 'INVALID PARAMETER',
 3221225486: 'NO SUCH DEVICE',
 3221225487: 'NO SUCH FILE',
 3221225488: 'INVALID DEVICE REQUEST',
 3221225489: 'END OF FILE',
 3221225490: 'WRONG VOLUME',
 3221225491: 'NO MEDIA',
 3221225493: 'NONEXISTENT SECTOR',
 3221225495: 'NO MEMORY',
 3221225505: 'ALREADY COMMITED',
 3221225506: 'ACCESS DENIED',
 3221225507: 'BUFFER TOO SMALL',
 3221225508: 'OBJECT TYPE MISMATCH',
 3221225522: 'DISK CORRUPT',
 3221225523: 'NAME INVALID',
 3221225524: 'NAME NOT FOUND',
 3221225525: 'NAME COLLISION',
 3221225529: 'OBJECT PATH INVALID',
 3221225530: 'PATH NOT FOUND',
 3221225531: 'PATH SYNTAX BAD',
 3221225532: 'DATA OVERRUN',
 3221225535: 'CRC ERROR',
 3221225539: 'SHARING VIOLATION',
 3221225540: 'QUOTA EXCEEDED',
 3221225551: 'EAS NOT SUPPORTED',
 3221225552: 'EA TOO LARGE',
 3221225553: 'NONEXISTENT EA ENTRY',
 3221225554: 'NO EAS ON FILE',
 3221225555: 'EA CORRUPTED ERROR',
 3221225556: 'FILE LOCK CONFLICT',
 3221225557: 'NOT GRANTED',
 3221225558: 'DELETE PENDING',
 3221225569: 'PRIVILEGE NOT HELD',
 3221225581: 'LOGON FAILURE',
 3221225598: 'RANGE NOT LOCKED',
 3221225599: 'DISK FULL',
 3221225624: 'FILE INVALID',
 3221225626: 'INSUFFICIENT RESOURCES',
 3221225628: 'DEVICE DATA ERROR',
 3221225629: 'DEVICE NOT CONNECTED',
 3221225634: 'MEDIA WRITE PROTECTED',
 3221225637: 'BAD IMPERSONATION',
 3221225643: 'INSTANCE NOT AVAILABLE',
 3221225644: 'PIPE NOT AVAILABLE',
 3221225645: 'INVALID PIPE STATE',
 3221225646: 'PIPE BUSY',
 3221225648: 'PIPE DISCONNECTED',
 3221225649: 'PIPE CLOSING',
 3221225650: 'PIPE CONNECTED',
 3221225651: 'PIPE LISTENING',
 3221225652: 'INVALID READ MODE',
 3221225653: 'IO TIMEOUT',
 3221225658: 'IS DIRECTORY',
 3221225659: 'NOT SUPPORTED',
 3221225661: 'DUPLICATE NAME',
 3221225662: 'BAD NETWORK PATH',
 3221225665: 'BAD NETWORK PATH',
 3221225667: 'INVALID NETWORK RESPONSE',
 3221225668: 'NETWORK ERROR',
 3221225676: 'BAD NETWORK NAME',
 3221225684: 'BAD NETWORK NAME',
 3221225688: 'CANT WAIT',
 3221225689: 'PIPE EMPTY',
 3221225691: 'CSC OBJECT PATH NOT FOUND',
 3221225698: 'OPLOCK NOT GRANTED',
 3221225711: 'INVALID PARAMETER 1',
 3221225712: 'INVALID PARAMETER 2',
 3221225713: 'INVALID PARAMETER 3',
 3221225714: 'INVALID PARAMETER 4',
 3221225723: 'REDIRECTOR NOT STARTED',
 3221225730: 'FILE CORRUPT',
 3221225731: 'NOT A DIRECTORY',
 3221225735: 'FILES OPEN',
 3221225741: 'CANNOT IMPERSONATE',
 3221225760: 'CANCELLED',
 3221225761: 'CANNOT DELETE',
 3221225763: 'FILE DELETED',
 3221225768: 'FILE CLOSED',
 3221225770: 'THREAD NOT IN PROCESS',
 3221225800: 'INVALID LEVEL',
 3221225803: 'PIPE BROKEN',
 3221225804: 'REGISTRY CORRUPT',
 3221225805: 'IO FAILED',
 3221225852: 'KEY DELETED',
 3221225857: 'CHILD MUST BE VOLATILE',
 3221225860: 'INVALID DEVICE STATE',
 3221225861: 'IO DEVICE ERROR',
 3221225864: 'LOG FILE FULL',
 3221225884: 'FS DRIVER REQUIRED',
 3221225989: 'INSUFFICIENT SERVER RESOURCES',
 3221225991: 'INVALID ADDRESS COMPONENT',
 3221225996: 'DISCONNECTED',
 3221226021: 'NOT FOUND',
 3221226051: 'USER MAPPED FILE',
 3221226056: 'LOGIN WKSTA RESTRICTION',
 3221226071: 'PATH NOT COVERED',
 3221226093: 'DFS UNAVAILABLE',
 3221226099: 'NO MORE MATCHES',
 3221226101: 'NOT REPARSE POINT',
 3221226218: 'CANNOT MAKE',
 3221226224: 'OBJECTID NOT FOUND',
 3221226376: 'DOWNGRADE DETECTED',
 3222863940: 'CANNOT EXECUTE FILE IN TRANSACTION',
 3221226533: 'HIVE UNLOADED',
 3221226535: 'FILE SYSTEM LIMITATION',
 3221226595: 'DEVICE FEATURE NOT SUPPORTED',
 3221226605: 'OBJECT NOT EXTERNALLY BACKED',
 3221227785: 'CANNOT BREAK OPLOCK',
 3221267105: 'STATUS_OFFLOAD_READ_FLT_NOT_SUPPORTED',
 3221267106: 'STATUS_OFFLOAD_WRITE_FLT_NOT_SUPPORTED',
 3222863873: 'TRANSACTIONAL CONFLICT',
 3222863874: 'INVALID TRANSACTION',
 3222863875: 'TRANSACTION_NOT_ACTIVE',
 3222863934: 'EFS NOT ALLOWED IN TRANSACTION',
 3222863935: 'TRANSACTIONAL OPEN NOT ALLOWED',
 3222863936: 'TRANSACTED MAPPING UNSUPPORTED REMOTE',
 3221267107: 'OFFLOAD READ FILE NOT SUPPORTED',
 3221267108: 'OFFLOAD READ FILE NOT SUPPORTED',
 3222863945: 'SPARSE NOT ALLOWED IN TRANSACTION',
 3223060484: 'FAST IO DISALLOWED'}

IOCTLS = {147544: 'IOCTL_CDROM_GET_CONFIGURATION',
 149504: 'IOCTL_CDROM_CHECK_VERIFY',
 149508: 'IOCTL_CDROM_MEDIA_REMOVAL',
 149512: 'IOCTL_CDROM_EJECT_MEDIA',
 149516: 'IOCTL_CDROM_LOAD_MEDIA',
 266264: 'IOCTL_SCSI_GET_ADDRESS',
 266272: 'IOCTL_SCSI_GET_DUMP_POINTERS',
 266276: 'IOCTL_SCSI_FREE_DUMP_POINTERS',
 315396: 'IOCTL_SCSI_PASS_THROUGH',
 315412: 'IOCTL_SCSI_PASS_THROUGH_DIRECT',
 393624: 'FSCTL_DFS_REPORT_INCONSISTENCY',
 393616: 'FSCTL_DFS_TRANSLATE_PATH',
 393620: 'FSCTL_DFS_GET_REFERRALS',
 393628: 'FSCTL_DFS_IS_SHARE_IN_DFS',
 393632: 'FSCTL_DFS_IS_ROOT',
 393636: 'FSCTL_DFS_GET_VERSION',
 458752: 'IOCTL_DISK_GET_DRIVE_GEOMETRY',
 458772: 'IOCTL_DISK_VERIFY',
 458784: 'IOCTL_DISK_PERFORMANCE',
 458788: 'IOCTL_DISK_IS_WRITABLE',
 458792: 'IOCTL_DISK_LOGGING',
 458800: 'IOCTL_DISK_HISTOGRAM_STRUCTURE',
 458804: 'IOCTL_DISK_HISTOGRAM_DATA',
 458808: 'IOCTL_DISK_HISTOGRAM_RESET',
 458812: 'IOCTL_DISK_REQUEST_STRUCTURE',
 458816: 'IOCTL_DISK_REQUEST_DATA',
 458824: 'IOCTL_DISK_GET_PARTITION_INFO_EX',
 458832: 'IOCTL_DISK_GET_DRIVE_LAYOUT_EX',
 458848: 'IOCTL_DISK_PERFORMANCE_OFF',
 458912: 'IOCTL_DISK_GET_DRIVE_GEOMETRY_EX',
 458992: 'IOCTL_DISK_GET_DISK_ATTRIBUTES',
 459072: 'IOCTL_DISK_UPDATE_PROPERTIES',
 459284: 'IOCTL_DISK_GET_CLUSTER_INFO',
 461824: 'IOCTL_DISK_GET_MEDIA_TYPES',
 475140: 'IOCTL_DISK_GET_PARTITION_INFO',
 475148: 'IOCTL_DISK_GET_DRIVE_LAYOUT',
 475228: 'IOCTL_DISK_GET_LENGTH_INFO',
 475264: 'SMART_GET_VERSION',
 475348: 'IOCTL_DISK_GET_CACHE_INFORMATION',
 477184: 'IOCTL_DISK_CHECK_VERIFY',
 477188: 'IOCTL_DISK_MEDIA_REMOVAL',
 477192: 'IOCTL_DISK_EJECT_MEDIA',
 477196: 'IOCTL_DISK_LOAD_MEDIA',
 477200: 'IOCTL_DISK_RESERVE',
 477204: 'IOCTL_DISK_RELEASE',
 477208: 'IOCTL_DISK_FIND_NEW_DEVICES',
 507912: 'IOCTL_DISK_SET_PARTITION_INFO',
 507920: 'IOCTL_DISK_SET_DRIVE_LAYOUT',
 507928: 'IOCTL_DISK_FORMAT_TRACKS',
 507932: 'IOCTL_DISK_REASSIGN_BLOCKS',
 507948: 'IOCTL_DISK_FORMAT_TRACKS_EX',
 507980: 'IOCTL_DISK_SET_PARTITION_INFO_EX',
 507988: 'IOCTL_DISK_SET_DRIVE_LAYOUT_EX',
 507992: 'IOCTL_DISK_CREATE_DISK',
 508036: 'SMART_SEND_DRIVE_COMMAND',
 508040: 'SMART_RCV_DRIVE_DATA',
 508068: 'IOCTL_DISK_REASSIGN_BLOCKS_EX',
 508104: 'IOCTL_DISK_UPDATE_DRIVE_SIZE',
 508112: 'IOCTL_DISK_GROW_PARTITION',
 508120: 'IOCTL_DISK_SET_CACHE_INFORMATION',
 508148: 'IOCTL_DISK_SET_DISK_ATTRIBUTES',
 508440: 'IOCTL_DISK_SET_CLUSTER_INFO',
 590080: 'FSCTL_SIS_COPYFILE',
 589824: 'FSCTL_REQUEST_OPLOCK_LEVEL_1',
 589828: 'FSCTL_REQUEST_OPLOCK_LEVEL_2',
 589832: 'FSCTL_REQUEST_BATCH_OPLOCK',
 589836: 'FSCTL_OPLOCK_BREAK_ACKNOWLEDGE',
 589840: 'FSCTL_OPBATCH_ACK_CLOSE_PENDING',
 589844: 'FSCTL_OPLOCK_BREAK_NOTIFY',
 589848: 'FSCTL_LOCK_VOLUME',
 589852: 'FSCTL_UNLOCK_VOLUME',
 589856: 'FSCTL_DISMOUNT_VOLUME',
 589864: 'FSCTL_IS_VOLUME_MOUNTED',
 589868: 'FSCTL_IS_PATHNAME_VALID',
 589872: 'FSCTL_MARK_VOLUME_DIRTY',
 589883: 'FSCTL_QUERY_RETRIEVAL_POINTERS',
 589884: 'FSCTL_GET_COMPRESSION',
 589904: 'FSCTL_OPLOCK_BREAK_ACK_NO_2',
 589912: 'FSCTL_QUERY_FAT_BPB',
 589916: 'FSCTL_REQUEST_FILTER_OPLOCK',
 589920: 'FSCTL_FILESYSTEM_GET_STATISTICS',
 589924: 'FSCTL_GET_NTFS_VOLUME_DATA',
 589928: 'FSCTL_GET_NTFS_FILE_RECORD',
 589935: 'FSCTL_GET_VOLUME_BITMAP',
 589939: 'FSCTL_GET_RETRIEVAL_POINTERS',
 589940: 'FSCTL_MOVE_FILE',
 589944: 'FSCTL_IS_VOLUME_DIRTY',
 589955: 'FSCTL_ALLOW_EXTENDED_DASD_IO',
 589959: 'FSCTL_READ_PROPERTY_DATA',
 589963: 'FSCTL_WRITE_PROPERTY_DATA',
 589967: 'FSCTL_FIND_FILES_BY_SID',
 589975: 'FSCTL_DUMP_PROPERTY_DATA',
 589976: 'FSCTL_SET_OBJECT_ID',
 589980: 'FSCTL_GET_OBJECT_ID',
 589984: 'FSCTL_DELETE_OBJECT_ID',
 589988: 'FSCTL_SET_REPARSE_POINT',
 589992: 'FSCTL_GET_REPARSE_POINT',
 589996: 'FSCTL_DELETE_REPARSE_POINT',
 590003: 'FSCTL_ENUM_USN_DATA',
 590011: 'FSCTL_READ_USN_JOURNAL',
 590012: 'FSCTL_SET_OBJECT_ID_EXTENDED',
 590016: 'FSCTL_CREATE_OR_GET_OBJECT_ID',
 590020: 'FSCTL_SET_SPARSE',
 590039: 'FSCTL_SET_ENCRYPTION',
 590043: 'FSCTL_ENCRYPTION_FSCTL_IO',
 590047: 'FSCTL_WRITE_RAW_ENCRYPTED',
 590051: 'FSCTL_READ_RAW_ENCRYPTED',
 590055: 'FSCTL_CREATE_USN_JOURNAL',
 590059: 'FSCTL_READ_FILE_USN_DATA',
 590063: 'FSCTL_WRITE_USN_CLOSE_RECORD',
 590064: 'FSCTL_EXTEND_VOLUME',
 590068: 'FSCTL_QUERY_USN_JOURNAL',
 590072: 'FSCTL_DELETE_USN_JOURNAL',
 590076: 'FSCTL_MARK_HANDLE',
 590112: 'FSCTL_FILE_PREFETCH',
 590255: 'CSC_FSCTL_OPERATION_QUERY_HANDLE',
 590320: 'FSCTL_QUERY_DEPENDENT_VOLUME',
 590384: 'FSCTL_GET_BOOT_AREA_INFO',
 590400: 'FSCTL_REQUEST_OPLOCK',
 590404: 'FSCTL_CSV_TUNNEL_REQUEST',
 590412: 'FSCTL_QUERY_FILE_SYSTEM_RECOGNITION',
 590420: 'FSCTL_CSV_GET_VOLUME_NAME_FOR_VOLUME_MOUNT_POINT',
 590424: 'FSCTL_CSV_GET_VOLUME_PATH_NAMES_FOR_VOLUME_NAME',
 590428: 'FSCTL_IS_FILE_ON_CSV_VOLUME',
 590432: 'FSCTL_CORRUPTION_HANDLING',
 590448: 'FSCTL_SET_PURGE_FAILURE_MODE',
 590455: 'FSCTL_QUERY_FILE_LAYOUT',
 590456: 'FSCTL_IS_VOLUME_OWNED_BYCSVFS',
 590460: 'FSCTL_GET_INTEGRITY_INFORMATION',
 590468: 'FSCTL_QUERY_FILE_REGIONS',
 590512: 'FSCTL_SCRUB_DATA',
 590520: 'FSCTL_DISABLE_LOCAL_BUFFERING',
 590604: 'FSCTL_SET_EXTERNAL_BACKING',
 802819: 'FSCTL_MAILSLOT_PEEK',
 622800: 'FSCTL_ENABLE_UPGRADE',
 606692: 'FSCTL_TXFS_LIST_TRANSACTIONS',
 590608: 'FSCTL_GET_EXTERNAL_BACKING',
 606391: 'FSCTL_SECURITY_ID_CHECK',
 606415: 'FSCTL_QUERY_ALLOCATED_RANGES',
 606820: 'FSCTL_OFFLOAD_READ',
 622792: 'FSCTL_SET_ZERO_DATA',
 639236: 'FSCTL_SIS_LINK_FILES',
 623112: 'FSCTL_FILE_LEVEL_TRIM',
 623208: 'FSCTL_OFFLOAD_WRITE',
 639040: 'FSCTL_SET_COMPRESSION',
 639240: 'FSCTL_HSM_MSG',
 639668: 'FSCTL_REPAIR_COPIES',
 1114144: 'FSCTL_PIPE_SET_CLIENT_PROCESS',
 1114112: 'FSCTL_PIPE_ASSIGN_EVENT',
 1114116: 'FSCTL_PIPE_DISCONNECT',
 1114120: 'FSCTL_PIPE_LISTEN',
 1114128: 'FSCTL_PIPE_QUERY_EVENT',
 1114136: 'FSCTL_PIPE_WAIT',
 1114140: 'FSCTL_PIPE_IMPERSONATE',
 1155064: 'FSCTL_PIPE_INTERNAL_WRITE',
 1114148: 'FSCTL_QUERY_CLIENT_PROCESS',
 1130508: 'FSCTL_PIPE_PEEK',
 1138688: 'FSCTL_PIPE_INTERNAL_READ',
 1163287: 'FSCTL_PIPE_TRANSCEIVE',
 1171455: 'FSCTL_PIPE_INTERNAL_TRANSCEIVE',
 1311121: 'FSCTL_LMR_START',
 1311123: 'IOCTL_SMBMRX_START',
 1311124: 'FSCTL_LMR_STOP',
 1311127: 'IOCTL_SMBMRX_STOP',
 1311128: 'IOCTL_SMBMRX_GETSTATE',
 1311129: 'FSCTL_NETWORK_SET_CONFIGURATION_INFO',
 1311134: 'FSCTL_NETWORK_GET_CONFIGURATION_INFO',
 1311139: 'FSCTL_NETWORK_GET_CONNECTION_INFO',
 1311143: 'FSCTL_NETWORK_ENUMERATE_CONNECTIONS',
 1311147: 'FSCTL_LMR_FORCE_DISCONNECT',
 1311148: 'FSCTL_NETWORK_DELETE_CONNECTION',
 1311152: 'FSCTL_LMR_BIND_TO_TRANSPORT',
 1311156: 'FSCTL_LMR_UNBIND_FROM_TRANSPORT',
 1311163: 'FSCTL_LMR_ENUMERATE_TRANSPORTS',
 1311172: 'FSCTL_LMR_GET_HINT_SIZE',
 1311176: 'FSCTL_LMR_TRANSACT',
 1311180: 'FSCTL_LMR_ENUMERATE_PRINT_INFO',
 1311184: 'FSCTL_NETWORK_GET_STATISTICS',
 1311188: 'FSCTL_LMR_START_SMBTRACE',
 1311192: 'FSCTL_LMR_END_SMBTRACE',
 1311196: 'FSCTL_LMR_START_RBR',
 1311200: 'FSCTL_NETWORK_SET_DOMAIN_NAME',
 1311204: 'FSCTL_LMR_SET_SERVER_GUID',
 1311208: 'FSCTL_LMR_QUERY_TARGET_INFO',
 1311212: 'FSCTL_LMR_QUERY_DEBUG_INFO',
 1311220: 'IOCTL_SMBMRX_ADDCONN',
 1311224: 'IOCTL_SMBMRX_DELCONN',
 1314779: 'IOCTL_SHADOW_END_REINT',
 1311608: 'IOCTL_UMRX_RELEASE_THREADS',
 1311614: 'IOCTL_UMRX_GET_REQUEST',
 1311618: 'IOCTL_UMRX_RESPONSE_AND_REQUEST',
 1311622: 'IOCTL_UMRX_RESPONSE',
 1311624: 'IOCTL_UMRX_GET_LOCK_OWNER',
 1311628: 'IOCTL_LMR_QUERY_REMOTE_SERVER_NAME',
 1311632: 'IOCTL_LMR_DISABLE_LOCAL_BUFFERING',
 1311636: 'IOCTL_UMRX_PREPARE_QUEUE',
 1311639: 'IOCTL_LMR_LWIO_POSTIO',
 1311643: 'IOCTL_LMR_LWIO_PREIO',
 1311720: 'FSCTL_NETWORK_REMOTE_BOOT_INIT_SCRT',
 2952192: 'IOCTL_STORAGE_GET_MEDIA_TYPES',
 1314815: 'IOCTL_GETSHADOW',
 2951168: 'IOCTL_STORAGE_CHECK_VERIFY2',
 2951180: 'IOCTL_STORAGE_LOAD_MEDIA2',
 2951488: 'IOCTL_STORAGE_EJECTION_CONTROL',
 2951492: 'IOCTL_STORAGE_MCN_CONTROL',
 2952196: 'IOCTL_STORAGE_GET_MEDIA_TYPES_EX',
 2952208: 'IOCTL_STORAGE_GET_MEDIA_SERIAL_NUMBER',
 2952212: 'IOCTL_STORAGE_GET_HOTPLUG_INFO',
 2953344: 'IOCTL_STORAGE_GET_DEVICE_NUMBER',
 2953472: 'IOCTL_STORAGE_PREDICT_FAILURE',
 2954240: 'IOCTL_STORAGE_QUERY_PROPERTY',
 5439888: 'IOCTL_VOLSNAP_QUERY_ORIGINAL_VOLUME_NAME',
 2969604: 'IOCTL_STORAGE_RESET_DEVICE',
 2967552: 'IOCTL_STORAGE_CHECK_VERIFY',
 2967556: 'IOCTL_STORAGE_MEDIA_REMOVAL',
 2967560: 'IOCTL_STORAGE_EJECT_MEDIA',
 2967564: 'IOCTL_STORAGE_LOAD_MEDIA',
 2967568: 'IOCTL_STORAGE_RESERVE',
 2967572: 'IOCTL_STORAGE_RELEASE',
 2967576: 'IOCTL_STORAGE_FIND_NEW_DEVICES',
 2969600: 'IOCTL_STORAGE_RESET_BUS',
 2969996: 'IOCTL_STORAGE_QUERY_DEPENDENT_DISK',
 2969620: 'IOCTL_STORAGE_BREAK_RESERVATION',
 2969624: 'IOCTL_STORAGE_PERSISTENT_RESERVE_IN',
 2969920: 'IOCTL_STORAGE_READ_CAPACITY',
 3001368: 'IOCTL_STORAGE_SET_HOTPLUG_INFO',
 3002396: 'IOCTL_STORAGE_PERSISTENT_RESERVE_OUT',
 3713043: 'IOCTL_CHANNEL_GET_SNDCHANNEL',
 5439512: 'IOCTL_VOLSNAP_QUERY_NAMES_OF_SNAPSHOTS',
 5046272: 'IOCTL_MOUNTDEV_QUERY_UNIQUE_ID',
 5046276: 'IOCTL_MOUNTDEV_UNIQUE_ID_CHANGE_NOTIFY',
 5046280: 'IOCTL_MOUNTDEV_QUERY_DEVICE_NAME',
 5046284: 'IOCTL_MOUNTDEV_QUERY_SUGGESTED_LINK_NAME',
 5046288: 'IOCTL_MOUNTDEV_LINK_CREATED',
 5046292: 'IOCTL_MOUNTDEV_LINK_DELETED',
 5439524: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA',
 5439532: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_SIZES',
 5439540: 'IOCTL_VOLSNAP_AUTO_CLEANUP',
 5439548: 'IOCTL_VOLSNAP_QUERY_REVERT',
 5439552: 'IOCTL_VOLSNAP_REVERT_CLEANUP',
 5439560: 'IOCTL_VOLSNAP_QUERY_REVERT_PROGRESS',
 5439564: 'IOCTL_VOLSNAP_CANCEL_REVERT',
 5439568: 'IOCTL_VOLSNAP_QUERY_EPIC',
 5439582: 'IOCTL_VOLSNAP_QUERY_COPY_FREE_BITMAP',
 5455956: 'IOCTL_VOLSNAP_QUERY_OFFLINE',
 5439900: 'IOCTL_VOLSNAP_QUERY_CONFIG_INFO',
 5439904: 'IOCTL_VOLSNAP_HAS_CHANGED',
 5439908: 'IOCTL_VOLSNAP_SET_SNAPSHOT_PRIORITY',
 5439912: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_PRIORITY',
 5439918: 'IOCTL_VOLSNAP_QUERY_DELTA_BITMAP',
 5439922: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_SUPPLEMENTAL',
 5439926: 'IOCTL_VOLSNAP_QUERY_COPIED_BITMAP',
 5439928: 'IOCTL_VOLSNAP_QUERY_MOVE_LIST',
 5439934: 'IOCTL_VOLSNAP_QUERY_PRE_COPIED_BITMAP',
 5439938: 'IOCTL_VOLSNAP_QUERY_USED_PRE_COPIED_BITMAP',
 5439942: 'IOCTL_VOLSNAP_QUERY_DEFRAG_PRE_COPIED_BITMAP',
 5439946: 'IOCTL_VOLSNAP_QUERY_FREESPACE_PRE_COPIED_BITMAP',
 5439950: 'IOCTL_VOLSNAP_QUERY_HOTBLOCKS_PRE_COPIED_BITMAP',
 5439952: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_FILE_SIZES',
 5488640: 'IOCTL_VOLSNAP_FLUSH_AND_HOLD_WRITES',
 5455960: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_MINIMUM_SIZE',
 5455972: 'IOCTL_VOLSNAP_BLOCK_DELETE_IN_THE_MIDDLE',
 5455984: 'IOCTL_VOLSNAP_QUERY_APPLICATION_FLAGS',
 5456000: 'IOCTL_VOLSNAP_QUERY_PERFORMANCE_COUNTERS',
 5456008: 'IOCTL_VOLSNAP_QUERY_PRE_COPY_AMOUNTS',
 5456012: 'IOCTL_VOLSNAP_QUERY_DEFAULT_PRE_COPY_AMOUNTS',
 5489048: 'IOCTL_VOLSNAP_SET_APPLICATION_INFO',
 5488644: 'IOCTL_VOLSNAP_RELEASE_WRITES',
 5488648: 'IOCTL_VOLSNAP_PREPARE_FOR_SNAPSHOT',
 5488652: 'IOCTL_VOLSNAP_ABORT_PREPARED_SNAPSHOT',
 5488656: 'IOCTL_VOLSNAP_COMMIT_SNAPSHOT',
 5488660: 'IOCTL_VOLSNAP_END_COMMIT_SNAPSHOT',
 5488668: 'IOCTL_VOLSNAP_CLEAR_DIFF_AREA',
 5488672: 'IOCTL_VOLSNAP_ADD_VOLUME_TO_DIFF_AREA',
 5488680: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE',
 5488688: 'IOCTL_VOLSNAP_DELETE_OLDEST_SNAPSHOT',
 5488696: 'IOCTL_VOLSNAP_DELETE_SNAPSHOT',
 5488708: 'IOCTL_VOLSNAP_REVERT',
 5488744: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE_TEMP',
 5488748: 'IOCTL_VOLSNAP_SET_APPLICATION_FLAGS',
 5488764: 'IOCTL_VOLSNAP_SET_BC_FAILURE_MODE',
 5488772: 'IOCTL_VOLSNAP_SET_PRE_COPY_AMOUNTS',
 5488784: 'IOCTL_VOLSNAP_PRE_EXPOSE_DEVICES',
 5636096: 'IOCTL_VOLUME_GET_VOLUME_DISK_EXTENTS',
 5636152: 'IOCTL_VOLUME_GET_GPT_ATTRIBUTES',
 7340048: 'IOCTL_DISK_QUERY_DEVICE_STATE',
 7356424: 'IOCTL_DISK_QUERY_DISK_SIGNATURE'}

