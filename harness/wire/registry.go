package wire

import "github.com/savaki/kafka/message"

var registry = map[string]interface{}{
	"ProduceRequest":                      (*message.ProduceRequest)(nil),
	"ProduceResponse":                     (*message.ProduceResponse)(nil),
	"RequestHeader":                       (*message.RequestHeader)(nil),
	"ResponseHeader":                      (*message.ResponseHeader)(nil),
	"FetchRequest":                        (*message.FetchRequest)(nil),
	"FetchResponse":                       (*message.FetchResponse)(nil),
	"ListOffsetRequest":                   (*message.ListOffsetRequest)(nil),
	"ListOffsetResponse":                  (*message.ListOffsetResponse)(nil),
	"MetadataRequest":                     (*message.MetadataRequest)(nil),
	"MetadataResponse":                    (*message.MetadataResponse)(nil),
	"LeaderAndIsrRequest":                 (*message.LeaderAndIsrRequest)(nil),
	"LeaderAndIsrResponse":                (*message.LeaderAndIsrResponse)(nil),
	"StopReplicaRequest":                  (*message.StopReplicaRequest)(nil),
	"StopReplicaResponse":                 (*message.StopReplicaResponse)(nil),
	"UpdateMetadataRequest":               (*message.UpdateMetadataRequest)(nil),
	"UpdateMetadataResponse":              (*message.UpdateMetadataResponse)(nil),
	"ControlledShutdownRequest":           (*message.ControlledShutdownRequest)(nil),
	"ControlledShutdownResponse":          (*message.ControlledShutdownResponse)(nil),
	"OffsetCommitRequest":                 (*message.OffsetCommitRequest)(nil),
	"OffsetCommitResponse":                (*message.OffsetCommitResponse)(nil),
	"OffsetFetchRequest":                  (*message.OffsetFetchRequest)(nil),
	"OffsetFetchResponse":                 (*message.OffsetFetchResponse)(nil),
	"FindCoordinatorRequest":              (*message.FindCoordinatorRequest)(nil),
	"FindCoordinatorResponse":             (*message.FindCoordinatorResponse)(nil),
	"JoinGroupRequest":                    (*message.JoinGroupRequest)(nil),
	"JoinGroupResponse":                   (*message.JoinGroupResponse)(nil),
	"HeartbeatRequest":                    (*message.HeartbeatRequest)(nil),
	"HeartbeatResponse":                   (*message.HeartbeatResponse)(nil),
	"LeaveGroupRequest":                   (*message.LeaveGroupRequest)(nil),
	"LeaveGroupResponse":                  (*message.LeaveGroupResponse)(nil),
	"SyncGroupRequest":                    (*message.SyncGroupRequest)(nil),
	"SyncGroupResponse":                   (*message.SyncGroupResponse)(nil),
	"DescribeGroupsRequest":               (*message.DescribeGroupsRequest)(nil),
	"DescribeGroupsResponse":              (*message.DescribeGroupsResponse)(nil),
	"ListGroupsRequest":                   (*message.ListGroupsRequest)(nil),
	"ListGroupsResponse":                  (*message.ListGroupsResponse)(nil),
	"SaslHandshakeRequest":                (*message.SaslHandshakeRequest)(nil),
	"SaslHandshakeResponse":               (*message.SaslHandshakeResponse)(nil),
	"ApiVersionsRequest":                  (*message.ApiVersionsRequest)(nil),
	"ApiVersionsResponse":                 (*message.ApiVersionsResponse)(nil),
	"CreateTopicsRequest":                 (*message.CreateTopicsRequest)(nil),
	"CreateTopicsResponse":                (*message.CreateTopicsResponse)(nil),
	"DeleteTopicsRequest":                 (*message.DeleteTopicsRequest)(nil),
	"DeleteTopicsResponse":                (*message.DeleteTopicsResponse)(nil),
	"DeleteRecordsRequest":                (*message.DeleteRecordsRequest)(nil),
	"DeleteRecordsResponse":               (*message.DeleteRecordsResponse)(nil),
	"InitProducerIdRequest":               (*message.InitProducerIdRequest)(nil),
	"InitProducerIdResponse":              (*message.InitProducerIdResponse)(nil),
	"OffsetForLeaderEpochRequest":         (*message.OffsetForLeaderEpochRequest)(nil),
	"OffsetForLeaderEpochResponse":        (*message.OffsetForLeaderEpochResponse)(nil),
	"AddPartitionsToTxnRequest":           (*message.AddPartitionsToTxnRequest)(nil),
	"AddPartitionsToTxnResponse":          (*message.AddPartitionsToTxnResponse)(nil),
	"AddOffsetsToTxnRequest":              (*message.AddOffsetsToTxnRequest)(nil),
	"AddOffsetsToTxnResponse":             (*message.AddOffsetsToTxnResponse)(nil),
	"EndTxnRequest":                       (*message.EndTxnRequest)(nil),
	"EndTxnResponse":                      (*message.EndTxnResponse)(nil),
	"WriteTxnMarkersRequest":              (*message.WriteTxnMarkersRequest)(nil),
	"WriteTxnMarkersResponse":             (*message.WriteTxnMarkersResponse)(nil),
	"TxnOffsetCommitRequest":              (*message.TxnOffsetCommitRequest)(nil),
	"TxnOffsetCommitResponse":             (*message.TxnOffsetCommitResponse)(nil),
	"DescribeAclsRequest":                 (*message.DescribeAclsRequest)(nil),
	"DescribeAclsResponse":                (*message.DescribeAclsResponse)(nil),
	"CreateAclsRequest":                   (*message.CreateAclsRequest)(nil),
	"CreateAclsResponse":                  (*message.CreateAclsResponse)(nil),
	"DeleteAclsRequest":                   (*message.DeleteAclsRequest)(nil),
	"DeleteAclsResponse":                  (*message.DeleteAclsResponse)(nil),
	"DescribeConfigsRequest":              (*message.DescribeConfigsRequest)(nil),
	"DescribeConfigsResponse":             (*message.DescribeConfigsResponse)(nil),
	"AlterConfigsRequest":                 (*message.AlterConfigsRequest)(nil),
	"AlterConfigsResponse":                (*message.AlterConfigsResponse)(nil),
	"AlterReplicaLogDirsRequest":          (*message.AlterReplicaLogDirsRequest)(nil),
	"AlterReplicaLogDirsResponse":         (*message.AlterReplicaLogDirsResponse)(nil),
	"DescribeLogDirsRequest":              (*message.DescribeLogDirsRequest)(nil),
	"DescribeLogDirsResponse":             (*message.DescribeLogDirsResponse)(nil),
	"SaslAuthenticateRequest":             (*message.SaslAuthenticateRequest)(nil),
	"SaslAuthenticateResponse":            (*message.SaslAuthenticateResponse)(nil),
	"CreatePartitionsRequest":             (*message.CreatePartitionsRequest)(nil),
	"CreatePartitionsResponse":            (*message.CreatePartitionsResponse)(nil),
	"CreateDelegationTokenRequest":        (*message.CreateDelegationTokenRequest)(nil),
	"CreateDelegationTokenResponse":       (*message.CreateDelegationTokenResponse)(nil),
	"RenewDelegationTokenRequest":         (*message.RenewDelegationTokenRequest)(nil),
	"RenewDelegationTokenResponse":        (*message.RenewDelegationTokenResponse)(nil),
	"ExpireDelegationTokenRequest":        (*message.ExpireDelegationTokenRequest)(nil),
	"ExpireDelegationTokenResponse":       (*message.ExpireDelegationTokenResponse)(nil),
	"DescribeDelegationTokenRequest":      (*message.DescribeDelegationTokenRequest)(nil),
	"DescribeDelegationTokenResponse":     (*message.DescribeDelegationTokenResponse)(nil),
	"DeleteGroupsRequest":                 (*message.DeleteGroupsRequest)(nil),
	"DeleteGroupsResponse":                (*message.DeleteGroupsResponse)(nil),
	"ElectLeadersRequest":                 (*message.ElectLeadersRequest)(nil),
	"ElectLeadersResponse":                (*message.ElectLeadersResponse)(nil),
	"IncrementalAlterConfigsRequest":      (*message.IncrementalAlterConfigsRequest)(nil),
	"IncrementalAlterConfigsResponse":     (*message.IncrementalAlterConfigsResponse)(nil),
	"AlterPartitionReassignmentsRequest":  (*message.AlterPartitionReassignmentsRequest)(nil),
	"AlterPartitionReassignmentsResponse": (*message.AlterPartitionReassignmentsResponse)(nil),
	"ListPartitionReassignmentsRequest":   (*message.ListPartitionReassignmentsRequest)(nil),
	"ListPartitionReassignmentsResponse":  (*message.ListPartitionReassignmentsResponse)(nil),
	"OffsetDeleteRequest":                 (*message.OffsetDeleteRequest)(nil),
	"OffsetDeleteResponse":                (*message.OffsetDeleteResponse)(nil),
}
