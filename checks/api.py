"""shared vocabulary for the participant interface"""
FIN = '{(_state == State::Finalized)}'
CON = '{(_state == State::Constructed)}'
INI = '{(_state == State::Initialized)}'
ONG = '{CouplingScheme::isCouplingOngoing(_couplingScheme)}'
HASMESH = '{ParticipantState::hasMesh(_accessor, arg0)}'
USED = '{ParticipantState::isMeshUsed(_accessor, arg0)}'
PROV = '{ParticipantState::isMeshProvided(_accessor, arg0)}'
RECV = '{ParticipantState::isMeshReceived(_accessor, arg0)}'
DIRECT = '{ParticipantState::isDirectAccessAllowed(_accessor, arg0)}'
LOCK = '{MultiLock::check(_meshLock, arg0)}'
HASDATA = '{ParticipantState::hasData(_accessor, arg0, arg1)}'
FULL = '{(ParticipantState::providedMeshContext(_accessor, arg0).meshRequirement == MeshRequirement::FULL)}'
EXP = '{_allowsExperimental}'
MESH = 'ParticipantState::providedMeshContext(_accessor, arg0).mesh'
VALID = lambda i: '{Mesh::isValidVertexID(%s, arg%d)}' % (MESH, i)
RANGEOK = '!{any(arg1: !Mesh::isValidVertexID(%s, elem(arg1)))}' % MESH
MODIFY = '%s | !%s | !%s | !%s | %s' % (FIN, HASMESH, USED, PROV, LOCK)
REGION = '{ParticipantState::receivedMeshContext(_accessor, arg0).userDefinedAccessRegion}'
PAR = '{IntraComm::isParallel()}'
IMPL = 'precice::impl::ParticipantImpl::'
V = lambda e: 'Mesh::vertex(%s, %s)' % (MESH, e)
